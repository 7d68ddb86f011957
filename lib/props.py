"""The checks by property."""
import p_db, p_obj, p_conc, p_sign, p_image, p_refs, p_update, p_bind, p_export, p_write, p_dns, p_import, p_format
MC = "model_checking"
PROPS = {
    "C01": (p_db.c01, MC), "C02": (p_db.c02, MC), "C03": (p_db.c03, MC), "C04": (p_db.c04, MC),
    "C08": (p_obj.c08, MC), "C09": (p_obj.c09, MC), "C17": (p_obj.c17, MC), "C20": (p_obj.c20, MC),
    "C05": (p_db.c05, MC), "C06": (p_db.c06, MC), "C07": (p_db.c07, MC), "C19": (p_db.c19, MC), "C18": (p_conc.c18, MC), "C10": (p_sign.c10, MC), "C11": (p_image.c11, MC), "C14": (p_refs.c14, MC),
    "C12": (p_update.c12, MC), "C13": (p_update.c13, MC),
    "C15": (p_bind.c15, MC),
    "C16": (p_export.c16, MC),
    "C21": (p_export.c21, MC), "C22": (p_write.c22, MC), "C23": (p_dns.c23, MC),
    "C24": (p_import.c24, MC), "C25": (p_import.c25, MC), "C26": (p_import.c26, MC),
    "C27": (p_format.c27, MC),
}

TV = "TLA+ trace validation with TLC"
NOTES = {
    "C01": (TV + " of real lookups; replay of TLC-enumerated worlds",
            "Every set of up to 3 (thorough: 4) blocks of a 3 bit space at 7 places of the real address space is replayed with TLC's answers; random, chained and large databases are validated as traces against Lpm. Trusts the driver and its independent reader of the file format; inputs beyond these are sampled."),
    "C02": (TV + " of writes; replay of TLC-enumerated worlds",
            "All sets of up to 3 blocks of a 3 bit space with 2 attributes are written and read back at several places and compared with TLC's assignment; random sets, full blocks, insertion orders and large sets are validated at all critical addresses. Sizes are bounded; larger inputs are sampled."),
    "C03": (TV + " of round trips", "Sampled AS/country/metadata sets including all country codes and pools that grow, each judged by the LocDB state machine."),
    "C04": (TV + " of walks", "Walks over TLC-enumerated worlds, extreme tree shapes, random and large databases are judged against the exact sorted set of stored networks."),
    "C05": (TV + " of searches", "Searches with sampled filter combinations over enumerated and random databases are judged against the set definition."),
    "C06": (TV + " of flattened walks", "Flattened walks are judged against the partition that lookups induce, at all critical addresses."),
    "C07": (TV + " of bogon listings", "Listings are judged to be the exact complement per family, at all critical addresses."),
    "C08": (TV + " of network operations", "All pairs of blocks of a 3 bit space at 7 places, random relatives and exclusion lists are judged by set arithmetic in TLA+."),
    "C09": ("TLC model checking of the list machine; " + TV, "The list machine is explored exhaustively (2 lists, 5 objects); all histories of 4 (thorough: 5) operations and long random ones of the real list are validated against it, beyond the sizes at which it grows."),
    "C10": ("TLC model checking of symbolic signatures; replay of TLC histories with TLA+ trace validation", "A symbolic model of contents, slots and keys is explored exhaustively (18 kinds of tampering, histories of 3, thorough 4); its histories are replayed on real files with real keys and validated, plus scans that change every single byte (outside and inside the slots) and many lengths of a file, also beyond the first 64 kB. Keys that cannot sign, files that are no keys, and read errors at every read of a verification are part of it. OpenSSL is trusted."),
    "C11": ("TLC model checking of walks through arbitrary trees; replay of TLC-enumerated files with TLA+ trace validation", "All trees of up to 3 nodes with arbitrary children (loops, shared, absent) are explored: the walk ends within its stack. All of up to 2 nodes (thorough: 3) are written into files and every query is run on them, as on deep and random trees, all header fields at extreme values, truncations and mutated files, under AddressSanitizer with the mapping replaced by a block of exactly the file's size. TLA+ decides which files have to be refused. Larger files are sampled."),
    "C12": ("TLC model checking of the update machine; replay of TLC-enumerated updates with TLA+ trace validation", "The update is modelled step by step (interval, announcement, mirrors, transfer in parts, verification, chmod, rename) and explored for all cases of up to 2 mirrors of 13 kinds, killed or disturbed at every step: it meets its contract. The cases are replayed with the real program against loopback mirrors, ended or made to fail at calls that change files, and judged by the contract. TLS and DNS are replaced."),
    "C13": ("TLC model checking of the update machine; replay of TLC-enumerated downloads with TLA+ trace validation", "All sequences of up to 2 mirrors of 13 kinds and 4 announcements are explored in the model and replayed with the real downloader against loopback mirrors (35 concrete behaviours, all of them alone and before good mirrors, longer lists sampled) and judged by the model's contract. A mirror that never answers is not covered."),
    "C14": ("TLC model checking of ownership; replay of TLC histories with TLA+ trace validation", "The ownership model is explored for all histories of 4 (thorough: 5) operations over up to 2 objects of each of 9 kinds, and simulated for histories of 30 (60); they are replayed under AddressSanitizer, reading everything that is still held after each step, with failing calls in between, dropping everything in random order at the end, and counting allocations and file descriptors."),
    "C15": (TV + " of the bindings' answers", "Drivers in Python, Lua and Perl speak the C driver's language; what they answer about sampled databases (every supported query, full-range values, signed files, walks outliving the handle) is judged by the same state machines as the C library, under AddressSanitizer. About 200 calls with unacceptable arguments have to be refused, random values of the right types must not disturb the interpreter."),
    "C16": (TV + " of exported files", "The real tool exports sampled selections of objects from TLC-enumerated, random and large databases in all four formats; every file is parsed and judged by the Cli specification: exact file names, well-formed syntax, and coverage equal to what lookups report, at all critical addresses."),
    "C21": (TV + " of command outputs", "The real tool is run with all its reporting commands on sampled databases; its parsed output and exit code are judged by the Cli specification."),
    "C17": (TV + " of texts against a TLA+ grammar", "A TLA+ grammar of address texts judges every prefix length, many spellings and thousands of mutated strings, printing and reverse pointers."),
    "C18": ("TLC model checking of interleavings; replay of TLC schedules with TLA+ trace validation", "Every interleaving of small plans (walks of all kinds, lookups, file replacement and removal) is explored by TLC and printed; they are replayed in the library and validated as traces, as are long random interleavings of up to 9 walks on 3 databases. Single-threaded interleavings only: the library promises no thread safety."),
    "C19": (TV + " of searches", "Sampled databases and search strings, judged by the substring definition in TLA+."),
    "C20": (TV + " of object histories", "All printable two-character codes, and random histories of networks, countries, ASes and their lists, judged by the Objects state machine."),
    "C22": ("TLC model checking of the write protocol on a failing medium; " + TV, "MC_Write explores every failure point of a small stream; the real writer then writes sampled databases to a medium that fails at sampled offsets (all page boundaries included), temporarily or for good (writes, reads back and seeks), and the recorded outcomes are judged. Contents are written again by the same writer, by others filled alike and by one filled from the written database, and the files compared."),
    "C23": (TV + " against a TLA+ grammar of DNS replies", "A TLA+ reading of DNS replies and of dates (checked against day counting to 2200) judges thousands of good, cut, damaged and hostile replies given to the real function under ASAN; how odd but readable replies are taken is left open."),
    "C24": ("TLC model checking of the importer's table; " + TV, "MC_Import shows for small worlds that the way the importer puts its table together (one row per mentioned place, layers, thinned registrations) says what the pointwise specification means. The real importer is then fed synthetic registries, routes, geofeeds, feeds and overrides, in which every layer speaks about outer and inner blocks in many combinations, and the database it writes is judged at all critical addresses, with its ASes, countries, metadata and signature. PostgreSQL is replaced by a translation to SQLite, the network by prepared replies."),
    "C25": ("TLC model checking of import histories; " + TV, "MC_Import explores histories of updates that succeed or fail, and of passing time. Random histories of updates with all kinds of failures (HTTP errors, refused, reset and cut off connections, damaged compression, a missing or ending route server) run through the real importer and the database written after each is judged by the same state machine. Time passes by ageing the stored times. PostgreSQL is replaced by a translation to SQLite."),
    "C26": (TV + " of imports", "Every listed kind of unusable record alone among good ones, for each format and registry, and random mixtures of spellings, ranges, encodings, piecemeal replies of the route server and failing geofeeds next to good ones; what is written is judged by the Import specification. PostgreSQL is replaced by a translation to SQLite."),
    "C27": ("TLC model checking of a TLA+ definition of the file format; " + TV, "MC_Format shows that the definition's reader undoes its writer, for all sets of up to 2 (thorough: 3) of 9 extreme networks in 4 layouts, and prints these files; the library answers about them, and about randomly laid out and signed files, as the definition says. The bytes of files the library writes are read by the definition in TLA+ and have to hold what was put in. Sizes are bounded, contents sampled; signatures are checked with openssl."),
}
NA = {}
