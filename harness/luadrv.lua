-- Scenario driver for the Lua binding (queries only); see driver.c for the commands.
local location = require("location")
local script, outp = arg[1], arg[2]
local out = assert(io.open(outp, "w"))
local D, E, N, A, C = {}, {}, {}, {}, {}

local function usage(s) io.stderr:write("DRIVER-USAGE: " .. s .. "\n"); out:flush(); os.exit(97, false) end
local function broken(s) io.stderr:write("DRIVER-BROKEN: " .. s .. "\n"); out:flush(); os.exit(96, false) end

local function unpct(t)
	if t == "-" then return nil end
	if t:sub(1, 2) ~= "s:" then return t end
	return (t:sub(3):gsub("%%(%x%x)", function(h) return string.char(tonumber(h, 16)) end))
end

local function js(s)
	if s == nil then return '""' end
	return '"' .. s:gsub('[%c"\\\127-\255]', function(c) return string.format("\\u%04x", c:byte()) end) .. '"'
end

local function u32(v)
	local i = math.tointeger(v)
	if i == nil or i < 0 or i >= 4294967296 then return "[-1,-1]" end
	return string.format("[%d,%d]", i >> 16, i & 0xffff)
end

-- networks are printed as text and attributes; the address is worked out elsewhere
local function net(n)
	if n == nil then return '{"none":1}' end
	local fl = 0
	for i = 0, 15 do if n:has_flag(1 << i) then fl = fl | 1 << i end end
	local asn, cc = n:get_asn(), n:get_country_code()
	if asn == 0 or cc == "" then broken("nil expected") end
	return string.format('{"str":%s,"fam":%d,"cc":%s,"asn":%s,"fl":%d}', js(tostring(n)), math.tointeger(n:get_family()),
		js(cc), u32(asn or 0), fl)
end
local function as(a)
	if a == nil then return '{"none":1}' end
	local num, name = a:get_number(), a:get_name()
	local want = "AS" .. string.format("%d", math.tointeger(num))
	if name ~= nil then want = want .. " - " .. name end
	if tostring(a) ~= want then broken("AS prints differently") end
	return string.format('{"n":%s,"name":%s}', u32(num), js(name))
end
local function country(c)
	if c == nil then return '{"none":1}' end
	if tostring(c) ~= c:get_code() or c ~= location.Country.new(c:get_code()) then broken("country prints differently") end
	return string.format('{"code":%s,"cont":%s,"name":%s}', js(c:get_code()), js(c:get_continent_code()), js(c:get_name()))
end

local function get(m, k) if m[k] == nil then broken("empty slot") end return m[k] end
local function call(f)
	local ok, v = pcall(f)
	if ok then return "ok", v end
	return "err", nil
end

local function walk(e)
	local q, n = {}, 0
	local ok, err = pcall(function()
		for x in e do
			q[#q + 1] = net(x)
			if #q >= 50000 then n = 1; return end
		end
		if e() ~= nil or e() ~= nil then n = 1 end
	end)
	return string.format('"nets":[%s],"more":%d,"r":"%s"', table.concat(q, ","), n, ok and "ok" or "err")
end

local function command(t)
	local c = t[1]
	if c == "d.open" then
		local r, d = call(function() return location.Database.open(unpct(t[3])) end)
		if r == "ok" then D[t[2]] = d end
		return '"r":"' .. r .. '"'
	elseif c == "d.lookup" then
		local r, n = call(function() return get(D, t[2]):lookup(unpct(t[3])) end)
		return '"r":"' .. r .. '","net":' .. net(n)
	elseif c == "d.as" then
		local r, a = call(function() return get(D, t[2]):get_as(tonumber(t[3])) end)
		if r == "ok" and a == nil then r = "none" end
		return '"r":"' .. r .. '","as":' .. as(a)
	elseif c == "d.country" then
		local r, k = call(function() return get(D, t[2]):get_country(unpct(t[3])) end)
		return '"r":"' .. r .. '","country":' .. country(k)
	elseif c == "d.meta" then
		local d = get(D, t[2])
		return string.format('"vendor":%s,"description":%s,"license":%s,"created":"%d"', js(d:get_vendor()),
			js(d:get_description()), js(d:get_license()), math.tointeger(d:created_at()))
	elseif c == "d.verify" then
		local r, v = call(function() return get(D, t[2]):verify(unpct(t[3])) end)
		if r == "ok" and v ~= true then r = "err" end
		return '"r":"' .. r .. '"'
	elseif c == "d.nets" then
		local r, e = call(function() return get(D, t[2]):list_networks() end)
		if r ~= "ok" then return '"r":"err","nets":[],"more":0' end
		return walk(e)
	elseif c == "e.new" then
		local r, e = call(function() return get(D, t[3]):list_networks() end)
		E[t[2]] = e
		return '"r":"' .. r .. '"'
	elseif c == "e.net" then
		local r, n = call(get(E, t[2]))
		return '"r":"' .. r .. '","net":' .. net(n)
	elseif c == "unref" then
		local m = ({d = D, e = E, n = N, a = A, c = C})[t[2]]
		m[t[3]] = nil
		collectgarbage()
		return '"r":"ok"'
	elseif c == "n.new" then
		local r, n = call(function() return location.Network.new(unpct(t[3])) end)
		if r == "ok" then N[t[2]] = n end
		return '"r":"' .. r .. '","net":' .. net(n)
	elseif c == "n.subnets" then
		local r, q = call(function() return get(N, t[2]):subnets() end)
		if r ~= "ok" then return '"r":"err","n1":{"none":1},"n2":{"none":1}' end
		if #q ~= 2 then broken("two subnets expected") end
		return '"r":"ok","n1":' .. net(q[1]) .. ',"n2":' .. net(q[2])
	elseif c == "n.rp" then
		local s = unpct(t[3])
		local r, v = call(function() if s == nil then return get(N, t[2]):reverse_pointer() end return get(N, t[2]):reverse_pointer(s) end)
		if r == "ok" and v == nil then r = "err" end
		return '"r":"' .. r .. '","s":' .. js(v)
	elseif c == "c.new" then
		local r, k = call(function() return location.Country.new(unpct(t[3]) or "") end)
		if r == "ok" then C[t[2]] = k; country(k) end
		return '"r":"' .. r .. '"'
	elseif c == "a.new" then
		local r, a = call(function() return location.AS.new(tonumber(t[3])) end)
		if r == "ok" then A[t[2]] = a end
		return '"r":"' .. r .. '"'
	elseif c == "a.get" then
		return '"as":' .. as(get(A, t[2]))
	elseif c == "x.release" then
		D, E, N, A, C = {}, {}, {}, {}, {}
		collectgarbage()
		collectgarbage()
		local n, p = 0, unpct(t[2])
		for l in io.lines("/proc/self/maps") do if l:find(p, 1, true) then n = n + 1 end end
		return '"maps":' .. n .. ',"fds":0'
	elseif c == "x.call" then
		local f, e = load(unpct(t[2]), "call", "t", {location = location, D = D["0"], N = N["0"], A = A["0"], C = C["0"],
			string = string, math = math, tostring = tostring, setmetatable = setmetatable})
		if not f then usage(e) end
		local r = call(f)
		collectgarbage()
		return '"r":"' .. r .. '"'
	end
	usage(table.concat(t, " "))
end

local flush = os.getenv("DRIVER_FLUSH")
local cur = false
for line in io.lines(script) do
	local t = {}
	for w in line:gmatch("%S+") do t[#t + 1] = w end
	if t[1] == "scenario" then
		if cur then out:write("@end\n") end
		cur = true
		D, E, N, A, C = {}, {}, {}, {}, {}
		collectgarbage()
		out:write("@scenario " .. t[2] .. "\n")
		out:flush()
	else
		out:write("{" .. command(t) .. "}\n")
		if flush then out:flush() end
	end
end
if cur then out:write("@end\n") end
out:write("@done\n")
out:close()
