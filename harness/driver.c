/*
 * Scenario driver: executes scripts of public libloc calls and prints one JSON
 * object with the observed result per command.  Only the public API is used.
 */
#include <errno.h>
#include <fcntl.h>
#include <dirent.h>
#include <arpa/inet.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <unistd.h>

#include <libloc/libloc.h>
#include <libloc/writer.h>
#include <libloc/database.h>
#include <libloc/network.h>
#include <libloc/network-list.h>
#include <libloc/as.h>
#include <libloc/as-list.h>
#include <libloc/country.h>
#include <libloc/country-list.h>
#include <libloc/resolv.h>

#if defined(__SANITIZE_ADDRESS__)
#define HAVE_HOOKS 1
int __sanitizer_install_malloc_and_free_hooks(
	void (*malloc_hook)(const volatile void*, size_t), void (*free_hook)(const volatile void*));
#endif

static long live = 0;      /* live allocations */
static int counting = 0;

#ifdef HAVE_HOOKS
static void on_malloc(const volatile void* p, size_t n) { if (p && counting) live++; }
static void on_free(const volatile void* p) { if (p && counting) live--; }
#endif

#define SLOTS 4096
enum { T_W, T_D, T_E, T_N, T_L, T_A, T_C, T_AL, T_CL, T_MAX };
static void* slot[T_MAX][SLOTS];
static int refs[T_MAX][SLOTS];

static struct loc_ctx* ctx = NULL;
static int ctx_refs = 0;
static FILE* out;
static char outbuf[1 << 16];

static void bad(const char* what) {
	fprintf(stderr, "DRIVER-USAGE: %s\n", what);
	fflush(out);
	_exit(97);
}

/* the library did something that makes it impossible to go on with this scenario */
static void broken(const char* what) {
	fprintf(stderr, "DRIVER-BROKEN: %s\n", what);
	fflush(out);
	_exit(96);
}

/* ------------------------------------------------------------------ tokens */
static char* toks[8192];
static int ntoks;

static int hexv(char c) {
	if (c >= '0' && c <= '9') return c - '0';
	if (c >= 'a' && c <= 'f') return c - 'a' + 10;
	if (c >= 'A' && c <= 'F') return c - 'A' + 10;
	return -1;
}

/* "-" is NULL, "s:..." is a percent-encoded string */
static char* str(int i) {
	if (i >= ntoks) bad("missing argument");
	char* t = toks[i];
	if (strcmp(t, "-") == 0) return NULL;
	if (strncmp(t, "s:", 2) != 0) return t;
	t += 2;
	char *r = t, *w = t;
	while (*r) {
		if (*r == '%' && hexv(r[1]) >= 0 && hexv(r[2]) >= 0) {
			*w++ = hexv(r[1]) * 16 + hexv(r[2]);
			r += 3;
		} else
			*w++ = *r++;
	}
	*w = '\0';
	toks[i] = t;    /* decoded: must be fetched once only */
	return t;
}

static long num(int i) { if (i >= ntoks) bad("missing number"); return strtol(toks[i], NULL, 0); }
static unsigned long unum(int i) { if (i >= ntoks) bad("missing number"); return strtoul(toks[i], NULL, 0); }

static int si(int i) {
	long v = num(i);
	if (v < 0 || v >= SLOTS) bad("slot number");
	return v;
}

static void* get(int type, int i) {
	void* p = slot[type][si(i)];
	if (!p) broken("empty slot");
	return p;
}

static void drop_one(int type, int n);

static void put(int type, int n, void* p) {
	while (slot[type][n]) drop_one(type, n);
	slot[type][n] = p;
	refs[type][n] = p ? 1 : 0;
}

static void drop_one(int type, int n) {
	void* p = slot[type][n];
	if (!p) return;
	switch (type) {
	case T_W: loc_writer_unref(p); break;
	case T_D: loc_database_unref(p); break;
	case T_E: loc_database_enumerator_unref(p); break;
	case T_N: loc_network_unref(p); break;
	case T_L: loc_network_list_unref(p); break;
	case T_A: loc_as_unref(p); break;
	case T_C: loc_country_unref(p); break;
	case T_AL: loc_as_list_unref(p); break;
	case T_CL: loc_country_list_unref(p); break;
	}
	if (--refs[type][n] <= 0) slot[type][n] = NULL;
}

static void ref_one(int type, int n) {
	void* p = slot[type][n];
	void* q = NULL;
	switch (type) {
	case T_W: q = loc_writer_ref(p); break;
	case T_D: q = loc_database_ref(p); break;
	case T_E: q = loc_database_enumerator_ref(p); break;
	case T_N: q = loc_network_ref(p); break;
	case T_L: q = loc_network_list_ref(p); break;
	case T_A: q = loc_as_ref(p); break;
	case T_C: q = loc_country_ref(p); break;
	case T_AL: q = loc_as_list_ref(p); break;
	case T_CL: q = loc_country_list_ref(p); break;
	}
	if (q != p) broken("ref returned something else");
	refs[type][n]++;
}

/* ------------------------------------------------------------------ output */
static void o_str(const char* s) {
	if (!s) { fputs("\"\\u0001NULL\"", out); return; }
	fputc('"', out);
	for (const unsigned char* p = (const unsigned char*)s; *p; p++) {
		if (*p == '"' || *p == '\\') fprintf(out, "\\%c", *p);
		else if (*p < 32 || *p >= 127) fprintf(out, "\\u%04x", *p);
		else fputc(*p, out);
	}
	fputc('"', out);
}

static void o_addr(const struct in6_addr* a) {
	fputc('[', out);
	for (int i = 0; i < 8; i++)
		fprintf(out, "%s%u", i ? "," : "", a->s6_addr[2*i] * 256 + a->s6_addr[2*i+1]);
	fputc(']', out);
}

static void o_u32(uint32_t v) { fprintf(out, "[%u,%u]", v >> 16, v & 0xffff); }

static int family_of(struct loc_network* n) {
	int f = loc_network_address_family(n);
	return f == AF_INET ? 4 : f == AF_INET6 ? 6 : f;
}

static unsigned int raw_prefix(struct loc_network* n) {
	return loc_network_prefix(n) + (family_of(n) == 4 ? 96 : 0);
}

/* the next block in the order of addresses and prefixes: prefixes are multiples of 4 */
/* the host k places behind an address (its last 32 bits are zero) */
static struct loc_network* host_net(const char* hex, unsigned long k) {
	struct in6_addr a;
	struct loc_network* n = NULL;
	for (int i = 0; i < 16; i++) a.s6_addr[i] = hexv(hex[2*i]) * 16 + hexv(hex[2*i+1]);
	for (int i = 0; i < 4; i++) a.s6_addr[15 - i] = (a.s6_addr[15 - i]) + ((k >> (8 * i)) & 0xff);
	if (loc_network_new(ctx, &n, &a, IN6_IS_ADDR_V4MAPPED(&a) ? 32 : 128)) broken("host");
	return n;
}

static void fill_next(struct in6_addr* a, unsigned int* p) {
	if (*p < 128) { *p += 4; return; }
	for (int i = 15; i >= 0; i--)
		if (++a->s6_addr[i]) break;
	*p = 128;
	for (int i = 15; i >= 0; i--) {
		if (a->s6_addr[i] & 0x0f) return;
		*p -= 4;
		if (a->s6_addr[i]) return;
		*p -= 4;
	}
	/* the block whose addresses all begin here: one level below the one that starts earlier */
}

static void o_net(struct loc_network* n) {
	if (!n) { fputs("{\"none\":1}", out); return; }
	int f = family_of(n);
	unsigned int fl = 0;
	for (int i = 0; i < 16; i++)
		if (loc_network_has_flag(n, 1u << i)) fl |= 1u << i;
	fputs("{\"a\":", out);
	o_addr(loc_network_get_first_address(n));
	fprintf(out, ",\"p\":%u,\"cc\":", loc_network_prefix(n) + (f == 4 ? 96 : 0));
	const char* cc = loc_network_get_country_code(n);
	o_str(cc ? cc : "");
	fputs(",\"asn\":", out);
	o_u32(loc_network_get_asn(n));
	fprintf(out, ",\"fl\":%u}", fl);
}

static void o_netlist(struct loc_network_list* l) {
	fputc('[', out);
	size_t n = loc_network_list_size(l);
	for (size_t i = 0; i < n; i++) {
		struct loc_network* net = loc_network_list_get(l, i);
		if (i) fputc(',', out);
		o_net(net);
		if (net) loc_network_unref(net);
	}
	fputc(']', out);
}

static void o_as(struct loc_as* a) {
	if (!a) { fputs("{\"none\":1}", out); return; }
	fputs("{\"n\":", out);
	o_u32(loc_as_get_number(a));
	fputs(",\"name\":", out);
	o_str(loc_as_get_name(a));
	fputc('}', out);
}

static void o_country(struct loc_country* c) {
	if (!c) { fputs("{\"none\":1}", out); return; }
	fputs("{\"code\":", out);
	o_str(loc_country_get_code(c));
	fputs(",\"cont\":", out);
	const char* s = loc_country_get_continent_code(c);
	o_str(s ? s : "");
	fputs(",\"name\":", out);
	o_str(loc_country_get_name(c));
	fputc('}', out);
}

static int slot_of(int type, void* p) {
	for (int i = 0; i < SLOTS; i++)
		if (slot[type][i] == p) return i;
	return -1;
}

static const char* rc(int r) {
	if (r == 0) return "ok";
	return "err";
}

static int count_fds(void) {
	int n = 0;
	DIR* d = opendir("/proc/self/fd");
	if (!d) return -1;
	while (readdir(d)) n++;
	closedir(d);
	return n - 3;
}

static int getaddr(const char* hex, struct in6_addr* a) {
	memset(a, 0, sizeof(*a));
	if (strlen(hex) != 32) bad("address");
	for (int i = 0; i < 16; i++)
		a->s6_addr[i] = hexv(hex[2*i]) * 16 + hexv(hex[2*i+1]);
	return 0;
}

/* -------------------------------------------------- version discovery stand-in */
/* a medium that runs full or fails */
static struct {
	char* data;
	size_t size, cap, pos;
	long calls, n;
	int armed, failed, kind, err;
} medium;

static void medium_reset(const char* mode, long n) {
	free(medium.data);
	memset(&medium, 0, sizeof(medium));
	medium.n = n;
	medium.armed = 1;
	medium.kind = strcmp(mode, "full") == 0 ? 1 : strncmp(mode, "from", 4) == 0 ? 2 : strncmp(mode, "once", 4) == 0 ? 3
		: strncmp(mode, "rfro", 4) == 0 ? 4 : strncmp(mode, "ronc", 4) == 0 ? 5 : strncmp(mode, "sfro", 4) == 0 ? 6 : strncmp(mode, "sonc", 4) == 0 ? 7 : 0;
	const char* e = medium.kind >= 2 ? mode + 4 : "";
	medium.err = *e == 'n' ? ENOSPC : *e == 'i' ? EINTR : *e == 'a' ? EAGAIN : *e == 'q' ? EDQUOT : *e == 'f' ? EFBIG : EIO;
}

static ssize_t medium_read(void* c, char* buf, size_t n) {
	if (medium.kind == 4 || medium.kind == 5) {
		medium.calls++;
		if (medium.kind == 4 ? medium.calls >= medium.n : medium.calls == medium.n) { medium.failed = 1; errno = medium.err; return -1; }
	}
	if (medium.pos >= medium.size) return 0;
	if (n > medium.size - medium.pos) n = medium.size - medium.pos;
	memcpy(buf, medium.data + medium.pos, n);
	medium.pos += n;
	return n;
}

static ssize_t medium_write(void* c, const char* buf, size_t n) {
	if (medium.kind < 4) medium.calls++;
	if ((medium.kind == 2 && medium.calls >= medium.n) || (medium.kind == 3 && medium.calls == medium.n)) {
		medium.failed = 1;
		errno = medium.err;
		return 0;
	}
	if (medium.kind == 1 && medium.pos + n > (size_t)medium.n) {
		medium.failed = 1;
		if (medium.pos >= (size_t)medium.n) { errno = ENOSPC; return 0; }
		n = medium.n - medium.pos;
	}
	if (medium.pos + n > medium.cap) {
		medium.cap = (medium.pos + n) * 2 + 4096;
		medium.data = realloc(medium.data, medium.cap);
	}
	if (medium.pos > medium.size) memset(medium.data + medium.size, 0, medium.pos - medium.size);
	memcpy(medium.data + medium.pos, buf, n);
	medium.pos += n;
	if (medium.pos > medium.size) medium.size = medium.pos;
	return n;
}

static int medium_seek(void* c, off64_t* off, int whence) {
	if (medium.kind >= 6) {
		medium.calls++;
		if (medium.kind == 6 ? medium.calls >= medium.n : medium.calls == medium.n) { medium.failed = 1; errno = medium.err; return -1; }
	}
	off64_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (off64_t)medium.pos : (off64_t)medium.size;
	if (base + *off < 0) { errno = EINVAL; return -1; }
	medium.pos = base + *off;
	*off = medium.pos;
	return 0;
}

static unsigned char dns_answer[65536];
static int dns_len = -1;
static char dns_domain[256];

#ifdef __SANITIZE_ADDRESS__
#include <sanitizer/asan_interface.h>
static void* dns_behind; static size_t dns_behind_len;
#endif
/* the n-th fread() finds a descriptor that cannot be read from */
static int fread_left, fread_saved = -1, fread_fd = -1;
size_t __real_fread(void*, size_t, size_t, FILE*);
size_t __wrap_fread(void* p, size_t size, size_t n, FILE* f);
size_t __wrap_fread(void* p, size_t size, size_t n, FILE* f) {
	if (fread_left > 0 && --fread_left == 0) {
		fread_fd = fileno(f);
		fread_saved = dup(fread_fd);
		int d = open("/", O_RDONLY | O_DIRECTORY);
		if (fread_saved < 0 || d < 0 || dup2(d, fread_fd) < 0) bad("dup2");
		close(d);
	}
	return __real_fread(p, size, n, f);
}

int __wrap_res_query(const char* dname, int class, int type, unsigned char* answer, int anslen);
int __wrap_res_query(const char* dname, int class, int type, unsigned char* answer, int anslen) {
	snprintf(dns_domain, sizeof(dns_domain), "%s/%d/%d", dname, class, type);
	if (dns_len < 0) return -1;
	memset(answer, '0', anslen);		/* whatever was there before */
	memcpy(answer, dns_answer, dns_len < anslen ? dns_len : anslen);
#ifdef __SANITIZE_ADDRESS__
	/* what lies behind the reply (and the end of its last text) is not to be looked at */
	if (dns_len + 1 < anslen) {
		dns_behind = answer + dns_len + 1;
		dns_behind_len = anslen - dns_len - 1;
		__asan_poison_memory_region(dns_behind, dns_behind_len);
	}
#endif
	return dns_len;
}
int __wrap___res_query(const char* dname, int class, int type, unsigned char* answer, int anslen);
int __wrap___res_query(const char* dname, int class, int type, unsigned char* answer, int anslen) {
	return __wrap_res_query(dname, class, type, answer, anslen);
}
int __wrap_res_init(void); int __wrap_res_init(void) { return 0; }
int __wrap___res_init(void); int __wrap___res_init(void) { return 0; }

#ifdef WRAP_MMAP
/* Present file mappings as exactly sized heap blocks, so that ASan sees every
 * read outside of the file's contents. */
void* __real_mmap(void*, size_t, int, int, int, off_t);
int __real_munmap(void*, size_t);
static struct { void* p; size_t n; } maps[64];
void* __wrap_mmap(void* addr, size_t len, int prot, int flags, int fd, off_t off);
void* __wrap_mmap(void* addr, size_t len, int prot, int flags, int fd, off_t off) {
	struct stat st;
	if (fd < 0 || (prot & PROT_WRITE)) return __real_mmap(addr, len, prot, flags, fd, off);
	if (len == 0) { errno = EINVAL; return MAP_FAILED; }
	if (fstat(fd, &st)) return MAP_FAILED;
	size_t avail = off < st.st_size ? (size_t)(st.st_size - off) : 0;
	size_t n = avail < len ? avail : len;
	unsigned char* p = malloc(n ? n : 1);
	size_t done = 0;
	while (done < n) {
		ssize_t r = pread(fd, p + done, n - done, off + done);
		if (r <= 0) break;
		done += r;
	}
	for (int i = 0; i < 64; i++)
		if (!maps[i].p) { maps[i].p = p; maps[i].n = len; return p; }
	bad("too many maps");
	return MAP_FAILED;
}
int __real_madvise(void*, size_t, int);
int __wrap_madvise(void* addr, size_t len, int advice);
int __wrap_madvise(void* addr, size_t len, int advice) {
	for (int i = 0; i < 64; i++)
		if (maps[i].p == addr && addr) return 0;
	return __real_madvise(addr, len, advice);
}
int __wrap_munmap(void* addr, size_t len);
int __wrap_munmap(void* addr, size_t len) {
	for (int i = 0; i < 64; i++)
		if (maps[i].p == addr && addr) { free(addr); maps[i].p = NULL; return 0; }
	return __real_munmap(addr, len);
}
#endif

/* ------------------------------------------------ independent reader of the format */
static unsigned char* img; static size_t imglen;
static uint32_t be32(size_t off) {
	if (off + 4 > imglen) return 0;
	return ((uint32_t)img[off] << 24) | (img[off+1] << 16) | (img[off+2] << 8) | img[off+3];
}
static unsigned long dec_count, dec_bad;
static void dec_walk(uint32_t data, uint32_t ndata, uint32_t tree, uint32_t ntree,
		uint32_t node, unsigned char* bits, int depth) {
	size_t o = tree + (size_t)node * 12;
	if (node >= ntree || depth > 128) { dec_bad++; return; }
	uint32_t net = be32(o + 8);
	if (net != 0xffffffff) {
		if (net >= ndata) dec_bad++;
		else {
			size_t d = data + (size_t)net * 12;
			struct in6_addr a;
			memset(&a, 0, sizeof(a));
			for (int i = 0; i < depth; i++)
				if (bits[i]) a.s6_addr[i / 8] |= 0x80 >> (i % 8);
			char cc[3] = { img[d], img[d+1], 0 };
			if (dec_count++) fputc(',', out);
			fputs("{\"a\":", out); o_addr(&a);
			fprintf(out, ",\"p\":%d,\"cc\":", depth); o_str(cc);
			fputs(",\"asn\":", out); o_u32(be32(d + 4));
			fprintf(out, ",\"fl\":%u}", img[d+8] * 256 + img[d+9]);
		}
	}
	uint32_t z = be32(o), n = be32(o + 4);
	if (z) { bits[depth] = 0; dec_walk(data, ndata, tree, ntree, z, bits, depth + 1); }
	if (n) { bits[depth] = 1; dec_walk(data, ndata, tree, ntree, n, bits, depth + 1); }
}
static void decode(const char* path) {
	unsigned char bits[130];
	FILE* f = fopen(path, "r");
	dec_count = dec_bad = 0;
	fputs("\"stored\":[", out);
	if (f) {
		fseek(f, 0, SEEK_END); imglen = ftell(f); rewind(f);
		img = malloc(imglen + 16);
		if (fread(img, 1, imglen, f) != imglen) dec_bad++;
		fclose(f);
		if (imglen < 4096 || memcmp(img, "LOCDBXX", 7)) dec_bad++;
		else {
			uint32_t d = be32(36), dl = be32(40), t = be32(44), tl = be32(48);
			if ((uint64_t)d + dl > imglen || (uint64_t)t + tl > imglen) dec_bad++;
			else if (tl) dec_walk(d, dl / 12, t, tl / 12, 0, bits, 0);
		}
		free(img);
	} else dec_bad++;
	fprintf(out, "],\"badimg\":%lu", dec_bad);
}

/* ---------------------------------------------------------------- files */
static void file_xor(FILE* f, long off, int mask) {
	fseek(f, off, SEEK_SET);
	int c = fgetc(f);
	if (c == EOF) bad("xor beyond the end");
	fseek(f, off, SEEK_SET);
	fputc(c ^ mask, f);
}
static void file_copy(const char* a, const char* b, long limit) {
	FILE *f = fopen(a, "r"), *g = fopen(b, "w");
	if (!f || !g) broken("copy");
	char buf[65536];
	size_t n;
	while (limit && (n = fread(buf, 1, limit > 0 && limit < (long)sizeof(buf) ? (size_t)limit : sizeof(buf), f)) > 0) {
		fwrite(buf, 1, n, g);
		if (limit > 0) limit -= n;
	}
	fclose(f); fclose(g);
}
/* 0: not opened, 1: opened, but not accepted, 2: accepted */
static int open_verify(const char* path, const char* key) {
	struct loc_database* db = NULL;
	FILE* f = fopen(path, "r");
	if (!f) broken("open_verify");
	int r = loc_database_new(ctx, &db, f);
	fclose(f);
	if (r) return 0;
	FILE* k = fopen(key, "r");
	if (!k) bad("public key");
	r = loc_database_verify(db, k);
	fclose(k);
	loc_database_unref(db);
	return r == 0 ? 2 : 1;
}


/* ---------------------------------------------------------------- everything one can ask a database */
static unsigned long touched;
static void touch(const char* s) { if (s) touched += strlen(s); }
static unsigned long queries, answers, errors;
static unsigned long batt_limit = 20000;
static const char* endless[64]; static int nendless;

static struct loc_database_enumerator* batt_enum(struct loc_database* db, int mode, int flags, int variant) {
	struct loc_database_enumerator* e = NULL;
	if (loc_database_enumerator_new(&e, db, mode, flags)) { errors++; return NULL; }
	if (variant == 1) loc_database_enumerator_set_family(e, AF_INET);
	if (variant == 2) loc_database_enumerator_set_family(e, AF_INET6);
	if (variant == 3) loc_database_enumerator_set_flag(e, LOC_NETWORK_FLAG_ANYCAST);
	if (variant == 4) {
		struct loc_country_list* cl = NULL; struct loc_country* k = NULL;
		if (loc_country_list_new(ctx, &cl)) return e;
		if (!loc_country_new(ctx, &k, "DE")) { loc_country_list_append(cl, k); loc_country_unref(k); }
		loc_database_enumerator_set_countries(e, cl);
		loc_country_list_unref(cl);
	}
	if (variant == 5) {
		struct loc_as_list* al = NULL; struct loc_as* a = NULL;
		if (loc_as_list_new(ctx, &al)) return e;
		if (!loc_as_new(ctx, &a, 64512)) { loc_as_list_append(al, a); loc_as_unref(a); }
		loc_database_enumerator_set_asns(e, al);
		loc_as_list_unref(al);
	}
	if (variant == 6) loc_database_enumerator_set_string(e, "name");
	return e;
}
static void batt_walk(const char* what, struct loc_database* db, int mode, int flags, int variant) {
	struct loc_database_enumerator* e = batt_enum(db, mode, flags, variant);
	queries++;
	if (!e) return;
	for (unsigned long n = 0; ; n++) {
		int r = 0, end = 0;
		if (n >= batt_limit) { if (nendless < 64) endless[nendless++] = what; break; }
		if (mode == LOC_DB_ENUMERATE_NETWORKS || mode == LOC_DB_ENUMERATE_BOGONS) {
			struct loc_network* x = NULL;
			r = loc_database_enumerator_next_network(e, &x);
			if (!r && x) {
				touch(loc_network_str(x)); touch(loc_network_get_country_code(x));
				touched += loc_network_get_asn(x) + loc_network_prefix(x);
				loc_network_unref(x);
			} else end = 1;
		} else if (mode == LOC_DB_ENUMERATE_ASES) {
			struct loc_as* x = NULL;
			r = loc_database_enumerator_next_as(e, &x);
			if (!r && x) { touch(loc_as_get_name(x)); loc_as_unref(x); } else end = 1;
		} else {
			struct loc_country* x = NULL;
			r = loc_database_enumerator_next_country(e, &x);
			if (!r && x) {
				touch(loc_country_get_name(x)); touch(loc_country_get_code(x));
				touch(loc_country_get_continent_code(x));
				loc_country_unref(x);
			} else end = 1;
		}
		if (r) errors++;
		if (end) break;
		answers++;
	}
	loc_database_enumerator_unref(e);
}
static int battery(const char* path, const char* key) {
	struct loc_database* db = NULL;
	FILE* f = fopen(path, "r");
	if (!f) bad("battery");
	queries = answers = errors = 0; nendless = 0;
	int r = loc_database_new(ctx, &db, f);
	fclose(f);
	if (r) return 0;

	touch(loc_database_get_vendor(db)); touch(loc_database_get_description(db));
	touch(loc_database_get_license(db));
	touched += loc_database_created_at(db) + loc_database_count_as(db);
	queries++;

	static const char* addrs[] = { "::", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff", "0.0.0.0", "255.255.255.255",
		"10.1.2.3", "192.168.255.0", "5555:5555:5555:5555:5555:5555:5555:5555", "2001:db8::1", "128.0.0.0",
		"aaaa:aaaa:aaaa:aaaa:aaaa:aaaa:aaaa:aaaa", "8000::", "::1", "2000::", "7fff:ffff:ffff:ffff::", NULL };
	for (int i = 0; addrs[i]; i++) {
		struct loc_network* n = NULL;
		queries++;
		r = loc_database_lookup_from_string(db, addrs[i], &n);
		if (r) errors++;
		else if (n) {
			answers++;
			touch(loc_network_str(n)); touch(loc_network_get_country_code(n));
			loc_network_unref(n);
		}
	}
	static const uint32_t asns[] = { 0, 1, 2, 64512, 65535, 65536, 0x7fffffff, 0x80000000, 0xffffffff };
	for (unsigned i = 0; i < sizeof(asns) / sizeof(*asns); i++) {
		struct loc_as* a = NULL;
		queries++;
		r = loc_database_get_as(db, &a, asns[i]);
		if (r == 0 && a) { answers++; touch(loc_as_get_name(a)); loc_as_unref(a); }
	}
	static const char* codes[] = { "AA", "AT", "DE", "FR", "US", "ZZ", "MM", "XD", "", "A", NULL };
	for (int i = 0; codes[i]; i++) {
		struct loc_country* k = NULL;
		queries++;
		r = loc_database_get_country(db, &k, codes[i]);
		if (r == 0 && k) {
			answers++;
			touch(loc_country_get_name(k)); touch(loc_country_get_continent_code(k));
			loc_country_unref(k);
		}
	}
	for (int v = 0; v < 6; v++) {
		batt_walk("networks", db, LOC_DB_ENUMERATE_NETWORKS, 0, v);
		batt_walk("flattened", db, LOC_DB_ENUMERATE_NETWORKS, LOC_DB_ENUMERATOR_FLAGS_FLATTEN, v);
	}
	for (int v = 0; v < 3; v++)
		batt_walk("bogons", db, LOC_DB_ENUMERATE_BOGONS, 0, v);
	batt_walk("ases", db, LOC_DB_ENUMERATE_ASES, 0, 0);
	batt_walk("ases", db, LOC_DB_ENUMERATE_ASES, 0, 6);
	batt_walk("countries", db, LOC_DB_ENUMERATE_COUNTRIES, 0, 0);
	if (key) {
		FILE* k = fopen(key, "r");
		if (!k) bad("public key");
		queries++;
		if (loc_database_verify(db, k) == 0) answers++; else errors++;
		fclose(k);
	}
	loc_database_unref(db);
	return 1;
}

/* ---------------------------------------------------------------- commands */
static struct loc_database_enumerator* make_enum(int di, int base) {
	/* mode flatten family flags countries(comma|-) asns(comma|-) string */
	struct loc_database* db = get(T_D, di);
	struct loc_database_enumerator* e = NULL;
	int mode = num(base), flatten = num(base + 1) & 1;
	int again = num(base + 1) & 2;		/* everything that can be replaced has been set before */
	int r = loc_database_enumerator_new(&e, db, mode, flatten ? LOC_DB_ENUMERATOR_FLAGS_FLATTEN : 0);
	if (r) return NULL;
	int fam = num(base + 2);
	if (again) loc_database_enumerator_set_family(e, fam == 4 ? AF_INET6 : AF_INET);
	if (fam || again) loc_database_enumerator_set_family(e, fam == 4 ? AF_INET : fam == 6 ? AF_INET6 : AF_UNSPEC);
	unsigned long fl = unum(base + 3);
	if (fl) loc_database_enumerator_set_flag(e, fl);
	char* cs = toks[base + 4];
	if (strcmp(cs, "-") != 0) {
		struct loc_country_list* cl = NULL;
		if (again) {
			struct loc_country* c = NULL;
			loc_country_list_new(ctx, &cl);
			if (loc_country_new(ctx, &c, "DE")) broken("filter country");
			loc_country_list_append(cl, c);
			loc_country_unref(c);
			loc_database_enumerator_set_countries(e, cl);
			loc_country_list_unref(cl);
		}
		loc_country_list_new(ctx, &cl);
		char* save = NULL;
		if (strcmp(cs, "@") != 0)
			for (char* p = strtok_r(cs, ",", &save); p; p = strtok_r(NULL, ",", &save)) {
				struct loc_country* c = NULL;
				if (loc_country_new(ctx, &c, p)) broken("filter country");
				loc_country_list_append(cl, c);
				loc_country_unref(c);
			}
		loc_database_enumerator_set_countries(e, cl);
		loc_country_list_unref(cl);
	}
	char* as = toks[base + 5];
	if (strcmp(as, "-") != 0) {
		struct loc_as_list* al = NULL;
		if (again) {
			struct loc_as* a = NULL;
			loc_as_list_new(ctx, &al);
			if (loc_as_new(ctx, &a, 1)) broken("filter as");
			loc_as_list_append(al, a);
			loc_as_unref(a);
			loc_database_enumerator_set_asns(e, al);
			loc_as_list_unref(al);
		}
		loc_as_list_new(ctx, &al);
		char* save = NULL;
		if (strcmp(as, "@") != 0)
			for (char* p = strtok_r(as, ",", &save); p; p = strtok_r(NULL, ",", &save)) {
				struct loc_as* a = NULL;
				if (loc_as_new(ctx, &a, strtoul(p, NULL, 0))) broken("filter as");
				loc_as_list_append(al, a);
				loc_as_unref(a);
			}
		loc_database_enumerator_set_asns(e, al);
		loc_as_list_unref(al);
	}
	char* s = str(base + 6);
	if (s && again) loc_database_enumerator_set_string(e, "again");
	if (s) loc_database_enumerator_set_string(e, s);
	return e;
}

#define IS(x) (strcmp(c, x) == 0)

static int type_of(const char* s) {
	static const char* names[] = { "w", "d", "e", "n", "l", "a", "c", "al", "cl" };
	for (int i = 0; i < T_MAX; i++)
		if (strcmp(names[i], s) == 0) return i;
	bad("type");
	return -1;
}

static void set_props(struct loc_network* n, int base) {
	/* cc asn flags */
	char* cc = toks[base];
	int r = 0;
	if (strcmp(cc, "-") != 0) r |= loc_network_set_country_code(n, cc);
	r |= loc_network_set_asn(n, unum(base + 1));
	unsigned long fl = unum(base + 2);
	if (fl) r |= loc_network_set_flag(n, fl);
	if (r) broken("properties refused");
}

static unsigned long enum_limit = 50000;

static void command(void) {
	const char* c = toks[0];
	int r;
	fputc('{', out);

	/* ------------------------------------------------ generic */
	if (IS("ref")) {
		int t = type_of(toks[1]);
		get(t, 2);
		ref_one(t, si(2));
		fputs("\"r\":\"ok\"", out);

	} else if (IS("unref")) {
		int t = type_of(toks[1]);
		get(t, 2);
		drop_one(t, si(2));
		fputs("\"r\":\"ok\"", out);

	} else if (IS("forget")) {   /* the slot becomes empty without dropping the reference */
		int t = type_of(toks[1]);
		slot[t][si(2)] = NULL; refs[t][si(2)] = 0;
		fputs("\"r\":\"ok\"", out);

	} else if (IS("ctx.ref")) {
		loc_ref(ctx); ctx_refs++;
		fputs("\"r\":\"ok\"", out);

	} else if (IS("ctx.unref")) {
		loc_unref(ctx); ctx_refs--;
		fputs("\"r\":\"ok\"", out);

	} else if (IS("mem")) {
		fprintf(out, "\"live\":%ld,\"fd\":%d", live, count_fds());

	/* ------------------------------------------------ writer */
	} else if (IS("w.new")) {
		struct loc_writer* w = NULL;
		FILE *k1 = NULL, *k2 = NULL;
		char *p1 = str(2), *p2 = str(3);
		if (p1 && !(k1 = fopen(p1, "r"))) bad("key1");
		if (p2 && !(k2 = fopen(p2, "r"))) bad("key2");
		r = loc_writer_new(ctx, &w, k1, k2);
		if (k1) fclose(k1);
		if (k2) fclose(k2);
		if (!r) put(T_W, si(1), w);
		fprintf(out, "\"r\":\"%s\"", rc(r));

	} else if (IS("w.meta")) {   /* w.meta W vendor|description|license string */
		struct loc_writer* w = get(T_W, 1);
		char* s = str(3);
		if (strcmp(toks[2], "vendor") == 0) r = loc_writer_set_vendor(w, s);
		else if (strcmp(toks[2], "description") == 0) r = loc_writer_set_description(w, s);
		else r = loc_writer_set_license(w, s);
		fprintf(out, "\"r\":\"%s\"", rc(r));

	} else if (IS("w.getmeta")) {
		struct loc_writer* w = get(T_W, 1);
		fputs("\"vendor\":", out); o_str(loc_writer_get_vendor(w));
		fputs(",\"description\":", out); o_str(loc_writer_get_description(w));
		fputs(",\"license\":", out); o_str(loc_writer_get_license(w));

	} else if (IS("w.net")) {    /* w.net W string cc asn flags keep(-|slot) */
		struct loc_writer* w = get(T_W, 1);
		struct loc_network* n = NULL;
		char* s = str(2);
		errno = 0;
		r = loc_writer_add_network(w, &n, s);
		if (r == 0) set_props(n, 3);
		fprintf(out, "\"r\":\"%s\"", r == 0 ? "ok" : r == -EBUSY ? "busy" : "err");
		if (r && r != -EBUSY) n = NULL;
		if (n) {
			if (strcmp(toks[6], "-") != 0 && r == 0) put(T_N, si(6), n);
			else loc_network_unref(n);
		}

	} else if (IS("w.from")) {	/* w.from W D: everything that can be found in the database */
		struct loc_writer* w = get(T_W, 1);
		struct loc_database_enumerator* e = NULL;
		struct loc_network *n = NULL, *m = NULL;
		r = loc_database_enumerator_new(&e, get(T_D, 2), LOC_DB_ENUMERATE_NETWORKS, 0);
		while (!r && !(r = loc_database_enumerator_next_network(e, &n)) && n) {
			r = loc_writer_add_network(w, &m, loc_network_str(n));
			if (!r) {
				if (*loc_network_get_country_code(n)) r |= loc_network_set_country_code(m, loc_network_get_country_code(n));
				r |= loc_network_set_asn(m, loc_network_get_asn(n));
				for (int b = 0; b < 16; b++)
					if (loc_network_has_flag(n, 1 << b)) r |= loc_network_set_flag(m, 1 << b);
				loc_network_unref(m);
			}
			loc_network_unref(n);
			n = NULL;
		}
		if (e) loc_database_enumerator_unref(e);
		fprintf(out, "\"r\":\"%s\"", rc(r));

	} else if (IS("w.fill")) {   /* w.fill W base(32 hex digits) cc asn flags top: a block with everything below it in steps of 4 bits */
		struct loc_writer* w = get(T_W, 1);
		struct in6_addr a;
		for (int i = 0; i < 16; i++) a.s6_addr[i] = hexv(toks[2][2*i]) * 16 + hexv(toks[2][2*i+1]);
		unsigned int top = unum(6), all = (top == 108) ? 1118481 : 69905;
		a.s6_addr[14] = a.s6_addr[15] = 0;
		if (top == 108) a.s6_addr[13] &= 0xf0;
		int v4 = IN6_IS_ADDR_V4MAPPED(&a);
		unsigned int asn = unum(4);
		r = 0;
		for (unsigned int k = 0, p = top; k < all && r == 0; k++) {
			char s[80];
			inet_ntop(v4 ? AF_INET : AF_INET6, v4 ? a.s6_addr + 12 : a.s6_addr, s, sizeof(s));
			sprintf(s + strlen(s), "/%u", v4 ? p - 96 : p);
			struct loc_network* n = NULL;
			r = loc_writer_add_network(w, &n, s);
			if (r) break;
			if (strcmp(toks[3], "-") != 0) loc_network_set_country_code(n, toks[3]);
			loc_network_set_asn(n, asn++);
			loc_network_set_flag(n, unum(5));
			loc_network_unref(n);
			fill_next(&a, &p);
		}
		fprintf(out, "\"r\":\"%s\"", rc(r));

	} else if (IS("w.as")) {     /* w.as W number name keep */
		struct loc_writer* w = get(T_W, 1);
		struct loc_as* a = NULL;
		r = loc_writer_add_as(w, &a, unum(2));
		char* s = str(3);
		if (r == 0 && s) r = loc_as_set_name(a, s);
		fprintf(out, "\"r\":\"%s\"", rc(r));
		if (a) {
			if (strcmp(toks[4], "-") != 0) put(T_A, si(4), a);
			else loc_as_unref(a);
		}

	} else if (IS("w.country")) { /* w.country W code continent name keep */
		struct loc_writer* w = get(T_W, 1);
		struct loc_country* k = NULL;
		char* code = str(2);
		r = loc_writer_add_country(w, &k, code ? code : "");
		if (r) k = NULL;
		char *ct = str(3), *nm = str(4);
		if (r == 0 && ct) r |= loc_country_set_continent_code(k, ct);
		if (r == 0 && nm) r |= loc_country_set_name(k, nm);
		fprintf(out, "\"r\":\"%s\"", rc(r));
		if (k) {
			if (strcmp(toks[5], "-") != 0) put(T_C, si(5), k);
			else loc_country_unref(k);
		}

	} else if (IS("w.write")) {  /* w.write W path version */
		struct loc_writer* w = get(T_W, 1);
		char* path = str(2);
		FILE* f = fopen(path, "w+");
		if (!f) bad("open for writing");
		r = loc_writer_write(w, f, num(3));
		if (fclose(f)) r = r ? r : 1;
		fprintf(out, "\"r\":\"%s\"", rc(r));

	} else if (IS("w.medium")) { /* w.medium W path version mode n: writes to a medium that fails */
		struct loc_writer* w = get(T_W, 1);
		medium_reset(toks[4], num(5));
		cookie_io_functions_t io = { medium_read, medium_write, medium_seek, NULL };
		FILE* f = fopencookie(&medium, "w+", io);
		if (!f) bad("cookie");
		r = loc_writer_write(w, f, num(3));
		/* what counts is what the function says: nobody looks at the result of closing */
		medium.armed = medium.armed == 1 ? 2 : medium.armed;
		long calls = medium.calls;
		int failed = medium.failed;
		size_t size = medium.size;
		char* copy = malloc(size + 1);
		if (size) memcpy(copy, medium.data, size);
		fclose(f);
		FILE* o = fopen(str(2), "w");
		if (!o) bad("open for writing");
		if (size && fwrite(copy, 1, size, o) != size) bad("write");
		fclose(o);
		free(copy);
		fprintf(out, "\"r\":\"%s\",\"failed\":%d,\"calls\":%ld,\"size\":%zu", rc(r), failed, calls, size);

	/* ------------------------------------------------ database */
	} else if (IS("d.open")) {
		struct loc_database* db = NULL;
		char* path = str(2);
		FILE* f = fopen(path, "r");
		if (!f) broken("open for reading");
		r = loc_database_new(ctx, &db, f);
		fclose(f);
		if (r == 0) put(T_D, si(1), db);
		fprintf(out, "\"r\":\"%s\"", rc(r));

	} else if (IS("d.unread")) {	/* d.unread path mode: a stream that cannot be read (a: write only, m: memory, d: a directory) */
		struct loc_database* db = NULL;
		char* path = str(1);
		static char mem[64];
		FILE* f = toks[2][0] == 'm' ? fmemopen(mem, sizeof(mem), "r") : fopen(toks[2][0] == 'd' ? "." : path, toks[2][0] == 'd' ? "r" : "a");
		if (!f) broken("open");
		r = loc_database_new(ctx, &db, f);
		fclose(f);
		if (r == 0) loc_database_unref(db);
		fprintf(out, "\"r\":\"%s\"", rc(r));

	} else if (IS("d.lookup")) { /* d.lookup D addrstring keep */
		struct loc_network* n = NULL;
		char* s = str(2);
		r = loc_database_lookup_from_string(get(T_D, 1), s, &n);
		fprintf(out, "\"r\":\"%s\",\"net\":", rc(r));
		if (r) n = NULL;
		o_net(n);
		if (n) {
			if (ntoks > 3 && strcmp(toks[3], "-") != 0) put(T_N, si(3), n);
			else loc_network_unref(n);
		}

	} else if (IS("d.lookup6")) { /* d.lookup6 D hex */
		struct loc_network* n = NULL;
		struct in6_addr a;
		getaddr(toks[2], &a);
		r = loc_database_lookup(get(T_D, 1), &a, &n);
		fprintf(out, "\"r\":\"%s\",\"net\":", rc(r));
		if (r) n = NULL;
		o_net(n);
		if (n) loc_network_unref(n);

	} else if (IS("d.as")) {
		struct loc_as* a = NULL;
		r = loc_database_get_as(get(T_D, 1), &a, unum(2));
		fprintf(out, "\"r\":\"%s\",\"as\":", r == 1 ? "none" : rc(r));
		if (r) a = NULL;
		o_as(a);
		if (a) {
			if (ntoks > 3 && strcmp(toks[3], "-") != 0) put(T_A, si(3), a);
			else loc_as_unref(a);
		}

	} else if (IS("d.country")) {
		struct loc_country* k = NULL;
		char* s = str(2);
		r = loc_database_get_country(get(T_D, 1), &k, s);
		fprintf(out, "\"r\":\"%s\",\"country\":", rc(r));
		if (r) k = NULL;
		o_country(k);
		if (k) {
			if (ntoks > 3 && strcmp(toks[3], "-") != 0) put(T_C, si(3), k);
			else loc_country_unref(k);
		}

	} else if (IS("d.meta")) {
		struct loc_database* db = get(T_D, 1);
		fputs("\"vendor\":", out); o_str(loc_database_get_vendor(db));
		fputs(",\"description\":", out); o_str(loc_database_get_description(db));
		fputs(",\"license\":", out); o_str(loc_database_get_license(db));
		fprintf(out, ",\"count\":%zu", loc_database_count_as(db));
		fprintf(out, ",\"created\":\"%lld\"", (long long)loc_database_created_at(db));

	} else if (IS("d.verify")) {
		char* p = str(2);
		FILE* f = fopen(p, "r");
		if (!f) bad("public key");
		r = loc_database_verify(get(T_D, 1), f);
		fclose(f);
		fprintf(out, "\"r\":\"%s\"", rc(r));

	} else if (IS("d.vfail")) {	/* d.vfail D key n: reading fails from the n-th time on */
		char* p = str(2);
		FILE* f = fopen(p, "r");
		if (!f) bad("public key");
		fread_left = num(3);
		fread_saved = -1;
		r = loc_database_verify(get(T_D, 1), f);
		fread_left = 0;
		fclose(f);
		if (fread_saved >= 0) {
			if (dup2(fread_saved, fread_fd) < 0) bad("dup2");
			close(fread_saved);
		}
		fprintf(out, "\"r\":\"%s\",\"failed\":%d", rc(r), fread_saved >= 0);

	} else if (IS("d.nets")) {   /* d.nets D mode flatten family flags countries asns string */
		struct loc_database_enumerator* e = make_enum(1, 2);
		if (!e) { fputs("\"r\":\"err\",\"nets\":[],\"more\":0", out); goto done; }
		unsigned long n = 0;
		fputs("\"nets\":[", out);
		r = 0;
		while (n < enum_limit) {
			struct loc_network* net = NULL;
			r = loc_database_enumerator_next_network(e, &net);
			if (r || !net) break;
			if (n++) fputc(',', out);
			o_net(net);
			loc_network_unref(net);
		}
		int more = (n >= enum_limit);
		for (int i = 0; i < 2 && r == 0 && !more; i++) {
			struct loc_network* net = NULL;
			r = loc_database_enumerator_next_network(e, &net);
			if (r == 0 && net) { more = 1; loc_network_unref(net); }
		}
		fprintf(out, "],\"more\":%d,\"r\":\"%s\"", more, rc(r));
		loc_database_enumerator_unref(e);

	} else if (IS("d.runs")) {   /* like d.nets, but [net, n] stands for n networks where each is fill_next of the one before */
		struct loc_database_enumerator* e = make_enum(1, 2);
		if (!e) { fputs("\"r\":\"err\",\"runs\":[],\"more\":0", out); goto done; }
		unsigned long n = 0, items = 0, len = 0;
		struct loc_network* prev = NULL;
		fputs("\"runs\":[", out);
		r = 0;
		while (n < 2000000) {
			struct loc_network* net = NULL;
			r = loc_database_enumerator_next_network(e, &net);
			if (r || !net) break;
			n++;
			int more = 0;
			if (prev) {
				struct in6_addr a = *loc_network_get_first_address(prev);
				unsigned int p = raw_prefix(prev);
				fill_next(&a, &p);
				more = memcmp(&a, loc_network_get_first_address(net), 16) == 0 && p == raw_prefix(net)
					&& strcmp(loc_network_get_country_code(prev), loc_network_get_country_code(net)) == 0
					&& loc_network_get_asn(prev) + 1 == loc_network_get_asn(net)
					&& loc_network_has_flag(prev, 0xffff) == loc_network_has_flag(net, 0xffff);
				loc_network_unref(prev);
			}
			if (more) len++;
			else {
				if (len) fprintf(out, ",\"n\":%lu}", len);
				if (items++) fputc(',', out);
				fputs("{\"net\":", out);
				o_net(net);
				len = 1;
			}
			prev = net;
		}
		if (prev) loc_network_unref(prev);
		if (len) fprintf(out, ",\"n\":%lu}", len);
		int more = (n >= 2000000);
		for (int i = 0; i < 2 && r == 0 && !more; i++) {
			struct loc_network* net = NULL;
			r = loc_database_enumerator_next_network(e, &net);
			if (r == 0 && net) { more = 1; loc_network_unref(net); }
		}
		fprintf(out, "],\"more\":%d,\"r\":\"%s\"", more, rc(r));
		loc_database_enumerator_unref(e);

	} else if (IS("d.ases")) {   /* d.ases D mode flatten family flags countries asns string rounds */
		struct loc_database_enumerator* e = make_enum(1, 2);
		if (!e) { fputs("\"r\":\"err\",\"ases\":[]", out); goto done; }
		unsigned long n = 0;
		int rounds = ntoks > 9 ? num(9) : 1;
		r = 0;
		fputs("\"ases\":[", out);
		for (int k = 0; k < rounds; k++) {
			n = 0;
			fputs(k ? ",[" : "[", out);
			while (n < enum_limit) {
				struct loc_as* a = NULL;
				r = loc_database_enumerator_next_as(e, &a);
				if (r || !a) break;
				if (n++) fputc(',', out);
				o_as(a);
				loc_as_unref(a);
			}
			fputc(']', out);
		}
		fprintf(out, "],\"r\":\"%s\"", rc(r));
		loc_database_enumerator_unref(e);

	} else if (IS("d.countries")) {
		struct loc_database_enumerator* e = make_enum(1, 2);
		if (!e) { fputs("\"r\":\"err\",\"countries\":[]", out); goto done; }
		unsigned long n = 0;
		int rounds = ntoks > 9 ? num(9) : 1;
		r = 0;
		fputs("\"countries\":[", out);
		for (int k = 0; k < rounds; k++) {
			n = 0;
			fputs(k ? ",[" : "[", out);
			while (n < enum_limit) {
				struct loc_country* a = NULL;
				r = loc_database_enumerator_next_country(e, &a);
				if (r || !a) break;
				if (n++) fputc(',', out);
				o_country(a);
				loc_country_unref(a);
			}
			fputc(']', out);
		}
		fprintf(out, "],\"r\":\"%s\"", rc(r));
		loc_database_enumerator_unref(e);

	/* ------------------------------------------------ enumerators, step by step */
	} else if (IS("e.new")) {    /* e.new E D mode flatten family flags countries asns string */
		struct loc_database_enumerator* e = make_enum(2, 3);
		if (e) put(T_E, si(1), e);
		fprintf(out, "\"r\":\"%s\"", e ? "ok" : "err");

	} else if (IS("e.str")) {
		char* s = str(2);
		r = loc_database_enumerator_set_string(get(T_E, 1), s);
		fprintf(out, "\"r\":\"%s\"", rc(r));

	} else if (IS("e.countries")) {
		r = loc_database_enumerator_set_countries(get(T_E, 1), get(T_CL, 2));
		fprintf(out, "\"r\":\"%s\"", rc(r));

	} else if (IS("e.asns")) {
		r = loc_database_enumerator_set_asns(get(T_E, 1), get(T_AL, 2));
		fprintf(out, "\"r\":\"%s\"", rc(r));

	} else if (IS("e.getcountries")) {
		struct loc_country_list* l = loc_database_enumerator_get_countries(get(T_E, 1));
		fprintf(out, "\"id\":%d", l ? slot_of(T_CL, l) : -2);
		if (l) loc_country_list_unref(l);

	} else if (IS("e.getasns")) {
		struct loc_as_list* l = loc_database_enumerator_get_asns(get(T_E, 1));
		fprintf(out, "\"id\":%d", l ? slot_of(T_AL, l) : -2);
		if (l) loc_as_list_unref(l);

	} else if (IS("e.net")) {    /* e.net E keep */
		struct loc_network* n = NULL;
		r = loc_database_enumerator_next_network(get(T_E, 1), &n);
		if (r) n = NULL;
		fprintf(out, "\"r\":\"%s\",\"net\":", rc(r));
		o_net(n);
		if (n) {
			if (ntoks > 2 && strcmp(toks[2], "-") != 0) put(T_N, si(2), n);
			else loc_network_unref(n);
		}

	} else if (IS("e.as")) {
		struct loc_as* a = NULL;
		r = loc_database_enumerator_next_as(get(T_E, 1), &a);
		if (r) a = NULL;
		fprintf(out, "\"r\":\"%s\",\"as\":", rc(r));
		o_as(a);
		if (a) {
			if (ntoks > 2 && strcmp(toks[2], "-") != 0) put(T_A, si(2), a);
			else loc_as_unref(a);
		}

	} else if (IS("e.country")) {
		struct loc_country* a = NULL;
		r = loc_database_enumerator_next_country(get(T_E, 1), &a);
		if (r) a = NULL;
		fprintf(out, "\"r\":\"%s\",\"country\":", rc(r));
		o_country(a);
		if (a) {
			if (ntoks > 2 && strcmp(toks[2], "-") != 0) put(T_C, si(2), a);
			else loc_country_unref(a);
		}

	/* ------------------------------------------------ networks */
	} else if (IS("n.new")) {    /* n.new N string [cc asn flags] */
		struct loc_network* n = NULL;
		char* s = str(2);
		r = loc_network_new_from_string(ctx, &n, s);
		if (r == 0 && ntoks > 3) set_props(n, 3);
		fprintf(out, "\"r\":\"%s\",\"net\":", rc(r));
		if (r) n = NULL;
		o_net(n);
		if (n) put(T_N, si(1), n);

	} else if (IS("n.newbin")) { /* n.newbin N hex prefix */
		struct loc_network* n = NULL;
		struct in6_addr a;
		getaddr(toks[2], &a);
		r = loc_network_new(ctx, &n, &a, num(3));
		fprintf(out, "\"r\":\"%s\",\"net\":", rc(r));
		if (r) n = NULL;
		o_net(n);
		if (n) put(T_N, si(1), n);

	} else if (IS("n.get")) {
		struct loc_network* n = get(T_N, 1);
		fputs("\"net\":", out); o_net(n);
		fprintf(out, ",\"fam\":%d,\"pfx\":%u,\"str\":", family_of(n), loc_network_prefix(n));
		o_str(loc_network_str(n));
		fputs(",\"last\":", out); o_addr(loc_network_get_last_address(n));
		char f[128], l[128];
		const char* s = loc_network_format_first_address(n);
		snprintf(f, sizeof(f), "%s", s ? s : "(null)");
		s = loc_network_format_last_address(n);
		snprintf(l, sizeof(l), "%s", s ? s : "(null)");
		fputs(",\"fstr\":", out); o_str(f);
		fputs(",\"lstr\":", out); o_str(l);

	} else if (IS("n.setcc")) {
		char* s = str(2);
		r = loc_network_set_country_code(get(T_N, 1), s);
		fprintf(out, "\"r\":\"%s\",\"net\":", rc(r));
		o_net(get(T_N, 1));

	} else if (IS("n.setasn")) {
		r = loc_network_set_asn(get(T_N, 1), unum(2));
		fprintf(out, "\"r\":\"%s\",\"net\":", rc(r));
		o_net(get(T_N, 1));

	} else if (IS("n.setflag")) {
		r = loc_network_set_flag(get(T_N, 1), unum(2));
		fprintf(out, "\"r\":\"%s\",\"net\":", rc(r));
		o_net(get(T_N, 1));

	} else if (IS("n.hasflag")) {
		r = loc_network_has_flag(get(T_N, 1), unum(2));
		fprintf(out, "\"v\":%d", !!r);

	} else if (IS("n.matchcc")) {
		char* s = str(2);
		errno = 0;
		r = loc_network_matches_country_code(get(T_N, 1), s);
		fprintf(out, "\"v\":%d", r < 0 ? -1 : !!r);

	} else if (IS("n.matchaddr")) {
		struct in6_addr a;
		getaddr(toks[2], &a);
		r = loc_network_matches_address(get(T_N, 1), &a);
		fprintf(out, "\"v\":%d", !!r);

	} else if (IS("n.cmp")) {
		r = loc_network_cmp(get(T_N, 1), get(T_N, 2));
		fprintf(out, "\"v\":%d", r < 0 ? -1 : r > 0 ? 1 : 0);

	} else if (IS("n.overlaps")) {
		r = loc_network_overlaps(get(T_N, 1), get(T_N, 2));
		fprintf(out, "\"v\":%d", !!r);

	} else if (IS("n.subnet")) { /* is second a subnet of the first? */
		r = loc_network_is_subnet(get(T_N, 1), get(T_N, 2));
		fprintf(out, "\"v\":%d", !!r);

	} else if (IS("n.subnets")) {
		struct loc_network *a = NULL, *b = NULL;
		r = loc_network_subnets(get(T_N, 1), &a, &b);
		if (r) a = b = NULL;
		fprintf(out, "\"r\":\"%s\",\"n1\":", rc(r));
		o_net(a); fputs(",\"n2\":", out); o_net(b);
		if (a) loc_network_unref(a);
		if (b) loc_network_unref(b);

	} else if (IS("n.exclude")) {
		struct loc_network_list* l = loc_network_exclude(get(T_N, 1), get(T_N, 2));
		fputs("\"nets\":", out);
		if (l) { o_netlist(l); loc_network_list_unref(l); fputs(",\"null\":0", out); }
		else fputs("[],\"null\":1", out);

	} else if (IS("n.excludelist")) {
		struct loc_network_list* l = loc_network_exclude_list(get(T_N, 1), get(T_L, 2));
		fputs("\"nets\":", out);
		if (l) { o_netlist(l); loc_network_list_unref(l); fputs(",\"null\":0", out); }
		else fputs("[],\"null\":1", out);

	} else if (IS("n.rp")) {
		char* s = str(2);
		char* p = loc_network_reverse_pointer(get(T_N, 1), s);
		fprintf(out, "\"r\":\"%s\",\"s\":", p ? "ok" : "err");
		o_str(p ? p : "");
		free(p);

	/* ------------------------------------------------ network lists */
	} else if (IS("l.new")) {
		struct loc_network_list* l = NULL;
		r = loc_network_list_new(ctx, &l);
		if (!r) put(T_L, si(1), l);
		fprintf(out, "\"r\":\"%s\"", rc(r));
	} else if (IS("l.fill")) {   /* l.fill L base from step n: hosts by their offset from the base */
		struct loc_network_list* l = get(T_L, 1);
		long k = num(3);
		r = 0;
		for (unsigned long i = 0; i < unum(5) && r == 0; i++, k += num(4)) {
			struct loc_network* n = host_net(toks[2], k);
			r = loc_network_list_push(l, n);
			loc_network_unref(n);
		}
		fprintf(out, "\"r\":\"%s\"", rc(r));
	} else if (IS("l.has")) {
		struct loc_network* n = host_net(toks[2], num(3));
		fprintf(out, "\"v\":%d", !!loc_network_list_contains(get(T_L, 1), n));
		loc_network_unref(n);
	} else if (IS("l.size")) {
		fprintf(out, "\"n\":%zu", loc_network_list_size(get(T_L, 1)));
	} else if (IS("l.add")) {    /* l.add L network */
		struct loc_network* n = NULL;
		if (loc_network_new_from_string(ctx, &n, str(2))) broken("l.add");
		r = loc_network_list_push(get(T_L, 1), n);
		loc_network_unref(n);
		fprintf(out, "\"r\":\"%s\"", rc(r));
	} else if (IS("l.push")) {
		r = loc_network_list_push(get(T_L, 1), get(T_N, 2));
		fprintf(out, "\"r\":\"%s\"", rc(r));
	} else if (IS("l.pop") || IS("l.popfirst")) {
		struct loc_network* n = IS("l.pop") ?
			loc_network_list_pop(get(T_L, 1)) : loc_network_list_pop_first(get(T_L, 1));
		fprintf(out, "\"id\":%d,\"net\":", n ? slot_of(T_N, n) : -2);
		o_net(n);
		if (n) loc_network_unref(n);
	} else if (IS("l.take") || IS("l.takefirst") || IS("l.peek")) {
		/* like pop, pop_first, get; the reference goes to slot 2, whose network it must be (if it holds one) */
		struct loc_network* n = IS("l.take") ? loc_network_list_pop(get(T_L, 1)) :
			IS("l.takefirst") ? loc_network_list_pop_first(get(T_L, 1)) : loc_network_list_get(get(T_L, 1), unum(3));
		int k = si(2), id = -2;
		if (n && slot[T_N][k] == n) { refs[T_N][k]++; id = k; }
		else if (n && !slot[T_N][k] && slot_of(T_N, n) < 0) { slot[T_N][k] = n; refs[T_N][k] = 1; id = k; }
		else if (n) { id = slot_of(T_N, n); loc_network_unref(n); }
		fprintf(out, "\"id\":%d", id);
	} else if (IS("l.nets")) {
		fputs("\"nets\":", out); o_netlist(get(T_L, 1));
	} else if (IS("l.get")) {
		struct loc_network* n = loc_network_list_get(get(T_L, 1), unum(2));
		fprintf(out, "\"id\":%d,\"net\":", n ? slot_of(T_N, n) : -2);
		o_net(n);
		if (n) loc_network_unref(n);
	} else if (IS("l.contains")) {
		r = loc_network_list_contains(get(T_L, 1), get(T_N, 2));
		fprintf(out, "\"v\":%d", !!r);
	} else if (IS("l.merge")) {
		r = loc_network_list_merge(get(T_L, 1), get(T_L, 2));
		fprintf(out, "\"r\":\"%s\"", rc(r));
	} else if (IS("l.clear")) {
		loc_network_list_clear(get(T_L, 1));
		fputs("\"r\":\"ok\"", out);
	} else if (IS("l.all")) {
		struct loc_network_list* l = get(T_L, 1);
		size_t n = loc_network_list_size(l);
		fprintf(out, "\"size\":%zu,\"empty\":%d,\"ids\":[", n, !!loc_network_list_empty(l));
		for (size_t i = 0; i < n; i++) {
			struct loc_network* net = loc_network_list_get(l, i);
			fprintf(out, "%s%d", i ? "," : "", net ? slot_of(T_N, net) : -2);
			if (net) loc_network_unref(net);
		}
		struct loc_network* beyond = loc_network_list_get(l, n);
		fprintf(out, "],\"beyond\":%d", beyond ? 1 : 0);
		if (beyond) loc_network_unref(beyond);

	/* ------------------------------------------------ AS */
	} else if (IS("a.new")) {
		struct loc_as* a = NULL;
		r = loc_as_new(ctx, &a, unum(2));
		if (!r) put(T_A, si(1), a);
		fprintf(out, "\"r\":\"%s\"", rc(r));
	} else if (IS("a.setname")) {
		char* s = str(2);
		r = loc_as_set_name(get(T_A, 1), s);
		fprintf(out, "\"r\":\"%s\",\"as\":", rc(r));
		o_as(get(T_A, 1));
	} else if (IS("a.get")) {
		fputs("\"as\":", out); o_as(get(T_A, 1));
	} else if (IS("a.cmp")) {
		r = loc_as_cmp(get(T_A, 1), get(T_A, 2));
		fprintf(out, "\"v\":%d", r < 0 ? -1 : r > 0 ? 1 : 0);
	} else if (IS("al.new")) {
		struct loc_as_list* l = NULL;
		r = loc_as_list_new(ctx, &l);
		if (!r) put(T_AL, si(1), l);
		fprintf(out, "\"r\":\"%s\"", rc(r));
	} else if (IS("al.append")) {
		r = loc_as_list_append(get(T_AL, 1), get(T_A, 2));
		fprintf(out, "\"r\":\"%s\"", rc(r));
	} else if (IS("al.bulk")) {
		/* numbers 2 ... are appended one by one */
		char* s = str(2);
		const char* all = "ok";
		for (char* t = strtok(s, ","); t; t = strtok(NULL, ",")) {
			struct loc_as* a = NULL;
			r = loc_as_new(ctx, &a, strtoul(t, NULL, 10));
			if (!r) r = loc_as_list_append(get(T_AL, 1), a);
			if (r) all = rc(r);
			if (a) loc_as_unref(a);
		}
		fprintf(out, "\"r\":\"%s\"", all);
	} else if (IS("al.contains")) {
		fprintf(out, "\"v\":%d", !!loc_as_list_contains(get(T_AL, 1), get(T_A, 2)));
	} else if (IS("al.containsn")) {
		fprintf(out, "\"v\":%d", !!loc_as_list_contains_number(get(T_AL, 1), unum(2)));
	} else if (IS("al.sort")) {
		loc_as_list_sort(get(T_AL, 1));
		fputs("\"r\":\"ok\"", out);
	} else if (IS("al.clear")) {
		loc_as_list_clear(get(T_AL, 1));
		fputs("\"r\":\"ok\"", out);
	} else if (IS("al.all")) {
		struct loc_as_list* l = get(T_AL, 1);
		size_t n = loc_as_list_size(l);
		fprintf(out, "\"size\":%zu,\"empty\":%d,\"all\":[", n, !!loc_as_list_empty(l));
		for (size_t i = 0; i < n; i++) {
			struct loc_as* a = loc_as_list_get(l, i);
			if (i) fputc(',', out);
			if (a) o_u32(loc_as_get_number(a)); else fputs("[-1,-1]", out);
			if (a) loc_as_unref(a);
		}
		struct loc_as* beyond = loc_as_list_get(l, n);
		fprintf(out, "],\"beyond\":%d", beyond ? 1 : 0);
		if (beyond) loc_as_unref(beyond);

	} else if (IS("al.full")) {
		struct loc_as_list* l = get(T_AL, 1);
		fputs("\"all\":[", out);
		for (size_t i = 0; i < loc_as_list_size(l); i++) {
			struct loc_as* a = loc_as_list_get(l, i);
			if (i) fputc(',', out);
			o_as(a);
			if (a) loc_as_unref(a);
		}
		fputs("]", out);
	} else if (IS("cl.full")) {
		struct loc_country_list* l = get(T_CL, 1);
		fputs("\"all\":[", out);
		for (size_t i = 0; i < loc_country_list_size(l); i++) {
			struct loc_country* a = loc_country_list_get(l, i);
			if (i) fputc(',', out);
			o_country(a);
			if (a) loc_country_unref(a);
		}
		fputs("]", out);

	/* ------------------------------------------------ countries */
	} else if (IS("c.new")) {
		struct loc_country* k = NULL;
		char* s = str(2);
		r = loc_country_new(ctx, &k, s);
		fprintf(out, "\"r\":\"%s\"", rc(r));
		if (!r) put(T_C, si(1), k);
	} else if (IS("c.setcont")) {
		char* s = str(2);
		r = loc_country_set_continent_code(get(T_C, 1), s);
		fprintf(out, "\"r\":\"%s\",\"country\":", rc(r));
		o_country(get(T_C, 1));
	} else if (IS("c.setname")) {
		char* s = str(2);
		r = loc_country_set_name(get(T_C, 1), s);
		fprintf(out, "\"r\":\"%s\",\"country\":", rc(r));
		o_country(get(T_C, 1));
	} else if (IS("c.get")) {
		fputs("\"country\":", out); o_country(get(T_C, 1));
	} else if (IS("c.cmp")) {
		r = loc_country_cmp(get(T_C, 1), get(T_C, 2));
		fprintf(out, "\"v\":%d", r < 0 ? -1 : r > 0 ? 1 : 0);
	} else if (IS("cc.valid")) {
		char* s = str(1);
		fprintf(out, "\"v\":%d", !!loc_country_code_is_valid(s));
	} else if (IS("cc.flag")) {
		char* s = str(1);
		fprintf(out, "\"v\":%d", loc_country_special_code_to_flag(s));
	} else if (IS("cl.new")) {
		struct loc_country_list* l = NULL;
		r = loc_country_list_new(ctx, &l);
		if (!r) put(T_CL, si(1), l);
		fprintf(out, "\"r\":\"%s\"", rc(r));
	} else if (IS("cl.append")) {
		r = loc_country_list_append(get(T_CL, 1), get(T_C, 2));
		fprintf(out, "\"r\":\"%s\"", rc(r));
	} else if (IS("cl.contains")) {
		fprintf(out, "\"v\":%d", !!loc_country_list_contains(get(T_CL, 1), get(T_C, 2)));
	} else if (IS("cl.containscode")) {
		char* s = str(2);
		fprintf(out, "\"v\":%d", !!loc_country_list_contains_code(get(T_CL, 1), s));
	} else if (IS("cl.sort")) {
		loc_country_list_sort(get(T_CL, 1));
		fputs("\"r\":\"ok\"", out);
	} else if (IS("cl.clear")) {
		loc_country_list_clear(get(T_CL, 1));
		fputs("\"r\":\"ok\"", out);
	} else if (IS("cl.all")) {
		struct loc_country_list* l = get(T_CL, 1);
		size_t n = loc_country_list_size(l);
		fprintf(out, "\"size\":%zu,\"empty\":%d,\"all\":[", n, !!loc_country_list_empty(l));
		for (size_t i = 0; i < n; i++) {
			struct loc_country* a = loc_country_list_get(l, i);
			if (i) fputc(',', out);
			o_str(a ? loc_country_get_code(a) : NULL);
			if (a) loc_country_unref(a);
		}
		struct loc_country* beyond = loc_country_list_get(l, n);
		fprintf(out, "],\"beyond\":%d", beyond ? 1 : 0);
		if (beyond) loc_country_unref(beyond);

	/* ------------------------------------------------ files */
	} else if (IS("f.rename")) {
		char *a = str(1), *b = str(2);
		fprintf(out, "\"r\":\"%s\"", rc(rename(a, b)));
	} else if (IS("f.sum")) {    /* f.sum path: what is in the file apart from its time and signatures */
		FILE* f = fopen(str(1), "r");
		if (!f) broken("open for reading");
		uint64_t h = 1469598103934665603ULL;
		long i = 0;
		for (int ch; (ch = fgetc(f)) != EOF; i++) {
			if ((i >= 8 && i < 16) || (i >= 68 && i < 4168)) continue;
			h = (h ^ (unsigned)ch) * 1099511628211ULL;
		}
		fclose(f);
		fprintf(out, "\"sum\":\"%016llx\",\"size\":%ld", (unsigned long long)h, i);
	} else if (IS("f.verifies")) { /* f.verifies path key */
		FILE* f = fopen(str(1), "r");
		FILE* k = fopen(str(2), "r");
		if (!f || !k) broken("open for reading");
		struct loc_database* db = NULL;
		r = loc_database_new(ctx, &db, f);
		if (r == 0) {
			r = loc_database_verify(db, k);
			loc_database_unref(db);
		}
		fclose(f);
		fclose(k);
		fprintf(out, "\"r\":\"%s\"", rc(r));
	} else if (IS("f.decode")) {
		char* a = str(1);
		decode(a);
	} else if (IS("f.bytes")) {  /* f.bytes path: pages without their trailing zeros */
		FILE* f = fopen(str(1), "r");
		if (!f) broken("f.bytes");
		unsigned char page[4096];
		size_t n, total = 0;
		fputs("\"pages\":[", out);
		while ((n = fread(page, 1, sizeof(page), f)) > 0) {
			if (total) fputc(',', out);
			total += n;
			while (n && !page[n - 1]) n--;
			fputc('[', out);
			for (size_t i = 0; i < n; i++) fprintf(out, i ? ",%u" : "%u", page[i]);
			fputc(']', out);
		}
		fclose(f);
		fprintf(out, "],\"size\":%zu", total);
	} else if (IS("f.xor")) {    /* f.xor path offset mask */
		char* a = str(1);
		FILE* f = fopen(a, "r+");
		if (!f) broken("f.xor");
		file_xor(f, unum(2), unum(3));
		fclose(f);
		fputs("\"r\":\"ok\"", out);
	} else if (IS("f.put")) {    /* f.put path offset hex */
		char* a = str(1);
		FILE* f = fopen(a, "r+");
		if (!f) broken("f.put");
		fseek(f, unum(2), SEEK_SET);
		for (char* h = toks[3]; h[0] && h[1]; h += 2) fputc(hexv(h[0]) * 16 + hexv(h[1]), f);
		fclose(f);
		fputs("\"r\":\"ok\"", out);
	} else if (IS("f.new")) {    /* f.new path hex */
		char* a = str(1);
		FILE* f = fopen(a, "w");
		if (!f) bad("f.new");
		for (char* h = ntoks > 2 ? toks[2] : ""; h[0] && h[1]; h += 2) fputc(hexv(h[0]) * 16 + hexv(h[1]), f);
		fclose(f);
		fputs("\"r\":\"ok\"", out);
	} else if (IS("f.cut")) {    /* f.cut path bytes: removes that many from the end */
		char* a = str(1);
		struct stat st;
		if (stat(a, &st)) broken("f.cut");
		r = truncate(a, st.st_size > num(2) ? st.st_size - num(2) : 0);
		fprintf(out, "\"r\":\"%s\"", rc(r));
	} else if (IS("f.append")) {
		char* a = str(1);
		FILE* f = fopen(a, "a");
		if (!f) broken("f.append");
		for (char* h = toks[2]; h[0] && h[1]; h += 2) fputc(hexv(h[0]) * 16 + hexv(h[1]), f);
		fclose(f);
		fputs("\"r\":\"ok\"", out);
	} else if (IS("f.range")) {  /* f.range from offset length to offset */
		char *a = str(1), *b = str(4);
		FILE *f = fopen(a, "r"), *g = fopen(b, "r+");
		if (!f || !g) broken("f.range");
		long n = num(3);
		char* buf = malloc(n);
		fseek(f, unum(2), SEEK_SET);
		fseek(g, unum(5), SEEK_SET);
		n = fread(buf, 1, n, f);
		fwrite(buf, 1, n, g);
		free(buf);
		fclose(f); fclose(g);
		fputs("\"r\":\"ok\"", out);
	} else if (IS("f.copy")) {
		char *a = str(1), *b = str(2);
		file_copy(a, b, -1);
		fputs("\"r\":\"ok\"", out);
	} else if (IS("f.size")) {
		char* a = str(1);
		struct stat st;
		fprintf(out, "\"size\":%ld", stat(a, &st) ? -1L : (long)st.st_size);
	} else if (IS("f.flipscan")) { /* f.flipscan path key from step to mask: which changes are accepted? */
		char *a = str(1), *k = str(2);
		struct stat st;
		unsigned long n = 0, m = 0;
		if (stat(a, &st)) broken("f.flipscan");
		fputs("\"accepted\":[", out);
		for (long i = num(3); i < st.st_size && i < num(5); i += num(4)) {
			FILE* f = fopen(a, "r+");
			if (!f) broken("f.flipscan");
			file_xor(f, i, unum(6));
			fclose(f);
			n++;
			if (open_verify(a, k) == 2) fprintf(out, "%s%ld", m++ ? "," : "", i);
			f = fopen(a, "r+");
			file_xor(f, i, unum(6));
			fclose(f);
		}
		fprintf(out, "],\"n\":%lu", n);
	} else if (IS("f.cutscan")) { /* f.cutscan path key from step to: which truncations are accepted? */
		char *a = str(1), *k = str(2);
		struct stat st;
		unsigned long n = 0, m = 0;
		char tmp[300];
		if (stat(a, &st)) broken("f.cutscan");
		snprintf(tmp, sizeof(tmp), "%s.cut", a);
		fputs("\"accepted\":[", out);
		for (long i = num(3); i <= st.st_size && i <= num(5); i += num(4)) {
			file_copy(a, tmp, i);
			n++;
			if (open_verify(tmp, k) == 2) fprintf(out, "%s%ld", m++ ? "," : "", i);
		}
		unlink(tmp);
		fprintf(out, "],\"n\":%lu,\"full\":%ld", n, (long)st.st_size);
	} else if (IS("f.check")) {  /* f.check path key: open and verify */
		char *a = str(1), *k = str(2);
		r = open_verify(a, k);
		fprintf(out, "\"opened\":%s,\"accepted\":%s", r > 0 ? "true" : "false", r == 2 ? "true" : "false");
	} else if (IS("f.battery")) { /* f.battery path key|- */
		char *a = str(1), *k = str(2);
		r = battery(a, k);
		fprintf(out, "\"opened\":%s,\"queries\":%lu,\"answers\":%lu,\"errors\":%lu,\"endless\":[",
			r ? "true" : "false", queries, answers, errors);
		for (int i = 0; i < nendless; i++) fprintf(out, "%s\"%s\"", i ? "," : "", endless[i]);
		fputs("]", out);
	} else if (IS("f.unlink")) {
		char* a = str(1);
		fprintf(out, "\"r\":\"%s\"", rc(unlink(a)));

	/* ------------------------------------------------ version discovery */
	} else if (IS("dns")) {      /* dns version hexanswer|- */
		time_t t = 4711;
		char* h = toks[2];
		if (strcmp(h, "-") == 0) dns_len = -1;
		else {
			dns_len = strlen(h) / 2;
			if (dns_len > (int)sizeof(dns_answer)) bad("dns answer");
			for (int i = 0; i < dns_len; i++)
				dns_answer[i] = hexv(h[2*i]) * 16 + hexv(h[2*i+1]);
		}
		dns_domain[0] = 0;
		r = loc_discover_latest_version(ctx, unum(1), &t);
#ifdef __SANITIZE_ADDRESS__
		if (dns_behind) __asan_unpoison_memory_region(dns_behind, dns_behind_len);
		dns_behind = NULL;
#endif
		fprintf(out, "\"r\":\"%s\",\"t\":\"%lld\",\"q\":", rc(r), r ? 0LL : (long long)t);
		o_str(dns_domain);

	} else if (IS("limit")) {
		enum_limit = unum(1);
		fputs("\"r\":\"ok\"", out);
	} else
		bad(c);

done:
	fputs("}\n", out);
}

static void scenario_end(void) {
	for (int t = 0; t < T_MAX; t++)
		for (int i = 0; i < SLOTS; i++)
			while (slot[t][i]) drop_one(t, i);
	while (ctx_refs > 0) { loc_unref(ctx); ctx_refs--; }
	ctx = NULL;
}

int main(int argc, char** argv) {
	if (argc < 3) { fprintf(stderr, "usage: driver SCRIPT OUT\n"); return 97; }
	FILE* in = fopen(argv[1], "r");
	out = fopen(argv[2], "w");
	if (!in || !out) return 97;
	setvbuf(out, outbuf, _IOFBF, sizeof(outbuf));

	char* line = NULL;
	size_t cap = 0;
	ssize_t len;
	int open_scenario = 0;
	int timeout = 60;

#ifdef HAVE_HOOKS
	__sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
#endif
	if (getenv("DRIVER_TIMEOUT")) timeout = atoi(getenv("DRIVER_TIMEOUT"));

	while (1) {
		counting = 0;
		len = getline(&line, &cap, in);
		if (len < 0) break;
		while (len && (line[len-1] == '\n' || line[len-1] == '\r')) line[--len] = 0;
		ntoks = 0;
		char* save = NULL;
		for (char* p = strtok_r(line, " ", &save); p && ntoks < 8192; p = strtok_r(NULL, " ", &save))
			toks[ntoks++] = p;
		if (!ntoks || toks[0][0] == '#') continue;
		if (strcmp(toks[0], "scenario") == 0) {
			if (open_scenario) { scenario_end(); fprintf(out, "@end\n"); }
			fprintf(out, "@scenario %s\n", toks[1]);
			fflush(out);
			alarm(timeout);
			/* warm up what libc allocates lazily, then start counting */
			live = 0;
			counting = 1;
			if (loc_new(&ctx)) broken("loc_new");
			counting = 0;
			if (getenv("DRIVER_LOG")) loc_set_log_priority(ctx, 7);
			else loc_set_log_priority(ctx, 0);
			ctx_refs = 1;
			open_scenario = 1;
			continue;
		}
		counting = 1;
		command();
		counting = 0;
		if (getenv("DRIVER_FLUSH")) fflush(out);
	}
	if (open_scenario) { scenario_end(); fprintf(out, "@end\n"); }
	fprintf(out, "@done\n");
	fclose(out);
	fclose(in);
	free(line);
	return 0;
}
