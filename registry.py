"""Harness registry: property id -> harnesses, bounds, assumptions."""

PROPS = {}


def H(name, file, entry=None, **kw):
    d = dict(name=name, file=file, entry=entry or "h_" + name)
    d.update(kw)
    return d


def prop(pid, harnesses, bounds="", assumptions=(), level="model_checking"):
    PROPS[pid] = dict(harnesses=harnesses, bounds=bounds, assumptions=list(assumptions), level=level)


FS = ["--max-field-sensitivity-array-size", "2000"]

prop("C10", [
    H("buf_alloc_21", "alloc.c", "h_buf_alloc", unwind=8, defs={"SIZES": "2,1", "NOPS": 4}, thorough={"defs": {"SIZES": "2,1", "NOPS": 5}, "timeout": 2400}),
    H("buf_alloc_102", "alloc.c", "h_buf_alloc", unwind=8, defs={"SIZES": "1,0,2", "NOPS": 4}),
    H("buf_alloc_size", "alloc.c", unwind=130, defs={"SIZES": "1,1"}),
    H("buf_alloc_size3", "alloc.c", "h_buf_alloc_size", unwind=130, defs={"SIZES": "1,0,1", "ARENA_N": 200}),
    H("buf_alloc_bad_size", "alloc.c", unwind=8, defs={"SIZES": "1,1"}),
], bounds="pool sets {32:2,64:1} and {32:1,64:0,128:2}, every history of 4 (thorough 5) allocations and releases of 3 live buffers, every request size 1..128, every 64-bit size outside; ")

prop("C11", [
    H("buf_write", "buffer.c", unwind=16), H("buf_copy", "buffer.c", unwind=16), H("buf_read", "buffer.c", unwind=16),
    H("buf_str", "buffer.c", unwind=16), H("buf_erase", "buffer.c", unwind=16), H("buf_simple", "buffer.c", unwind=16),
    H("buf_int_write", "buffer.c", unwind=16), H("buf_int_read", "buffer.c", unwind=16), H("buf_static", "buffer.c", unwind=16),
], bounds="one operation from every buffer state with capacity up to 12 bytes (cursor, length, reserve and content arbitrary), every argument; strings up to 14 characters")
prop("C12", [
    H("bbuf", "buffer.c", unwind=17), H("bbuf_decode", "buffer.c", unwind=17),
    H("buf_int_write", "buffer.c", unwind=16), H("buf_int_read", "buffer.c", unwind=16),
], bounds="every 8, 16, 32 and 64 bit value and every byte content, raw pointer and buffer forms, every cursor position in a 12-byte buffer")
prop("C13", [
    H("buf_write", "buffer.c", unwind=16), H("buf_copy", "buffer.c", unwind=16),
    H("buf_str", "buffer.c", unwind=16), H("buf_str_truncate", "buffer.c", unwind=16), H("buf_erase", "buffer.c", unwind=16), H("buf_simple", "buffer.c", unwind=16),
], bounds="one operation from every buffer state with capacity up to 12 bytes and every argument")
prop("C14", [
    H("mblock_%d" % v, "alloc.c", "h_mblock", unwind=12, defs={"BLOCKS": 9, "MFIX": v, "MFIX_FROM": 7}, cbmc=FS, object_bits=12) for v in range(4)
] + [
    H("mblock_size", "alloc.c", unwind=12, defs={"BLOCKS": 10}), H("mblock_size_3", "alloc.c", "h_mblock_size", unwind=12, defs={"BLOCKS": 10, "MTAKEN": 3}),
] + [
    H("mblock_pair_%d_%d" % (t, f), "alloc.c", "h_mblock_pair", unwind=20, defs={"BLOCKS": 12, "MTAKEN": t, "MFIRST": f, "MLAST": l}, cbmc=FS, object_bits=12, tier=q) for t, f, l, q in ((0, 6, 8, "quick"), (0, 1, 5, "thorough"), (0, 9, 12, "thorough"), (1, 1, 11, "thorough"), (3, 1, 9, "thorough"))
] + [
    H("mblock_past_end", "alloc.c", unwind=36, defs={"BLOCKS": 32}),
    H("mblock_exhausted", "alloc.c", unwind=12),
    H("mblock_bad_free", "alloc.c", unwind=12), H("mblock_outside", "alloc.c", unwind=12),
], bounds="9 blocks of 4 bytes: every occupancy, then 1..4 or 8 blocks requested, optionally released, then a second request; 12 blocks: 6 to 8 (thorough: any number, also after 1 or 3) blocks, releases, and the exact rest; every 31-bit size on an empty and a partly used allocator; every release range in a 10-block allocator")

prop("C15", [
    H("pool", "alloc.c", unwind=9, defs={"POPS": 5}, thorough={"defs": {"POPS": 6}}),
], bounds="3 blocks of 5 bytes, every history of 5 (thorough 6) allocations and releases")
prop("C16", [
    H("object_pool", "alloc.c", unwind=7, defs={"OOPS": 4}, cbmc=FS, thorough={"defs": {"OOPS": 6}}),
    H("object_pool_nofn", "alloc.c", "h_object_pool", unwind=7, defs={"WITH_FNS": 0, "OCOUNT": 3, "OOPS": 4}, cbmc=FS, thorough={"defs": {"WITH_FNS": 0, "OCOUNT": 3, "OOPS": 5}}),
    H("object_pool_dead", "alloc.c", unwind=7, cbmc=FS),
] + [H("object_pool_nested_%d" % c, "alloc.c", "h_object_pool_nested", unwind=7, cbmc=FS, defs={"NCALL": c}) for c in (1, 2, 3)

], bounds="pools of 2 and 3 objects of 6 bytes; every history of 4 (thorough 5-6) allocations, references and releases; use after up to 3 releases; constructors and destructors that allocate or release another object")

prop("C18", [
    H("list_ops", "list.c", unwind=5, defs={"NEL": 3, "NOPS": 3}, thorough={"defs": {"NEL": 4, "NOPS": 5}}),
    H("list_foreach_modify", "list.c", unwind=5, defs={"NEL": 4}),
], bounds="two lists, 3 items (thorough 4), any 3 (thorough 5) operations; traversal with modification over up to 4 items")


prop("C19", [
    H("intmap_%d" % o, "maps.c", "h_intmap", unwind=9, object_bits=14, defs={"OCC": o, "OCC_N": 2}) for o in range(4)
] + [
    H("intmap_any", "maps.c", unwind=9), H("intmap_typed", "maps.c", unwind=9),
] + [H("intmap_grow_%d" % d, "maps.c", "h_intmap_grow", unwind=34, defs={"DIST": d}, object_bits=12, thorough={"defs": {"DIST": d, "NGROW": 65}, "unwind": 130}) for d in range(5)
], bounds="every subset of 4 keys (3 in one bin, one negative) then any 2 puts or removes; any three 64-bit keys; 17 (thorough 65) keys in 5 distributions across growth with every key overwritten and removed and every 64-bit key looked up")
prop("C20", [
    H("intmap_iter_%d" % o, "maps.c", "h_intmap_iter", unwind=9, object_bits=14, defs={"KEYS": "3,11,7,15", "OCC": o, "OCC_N": 2}) for o in range(4)
] + [
    H("intmap_iter2_%d" % o, "maps.c", "h_intmap_iter", unwind=9, object_bits=14, tier="quick" if o < 7 else "thorough", defs={"KEYS": "3,11,7", "NITER": 2, "NMOD": 1, "OCC": o, "OCC_N": 3}) for o in range(8)
] + [H("intmap_iter_grow_%d" % d, "maps.c", "h_intmap_iter_grow", unwind=40, defs={"DIST": d}, object_bits=12) for d in range(5)
], bounds="one iterator: every subset of 4 keys in two bins (one the last) with up to 2 puts or removes anywhere in between; two iterators: up to 2 of 3 keys (thorough all 3), every interleaving with one change; 17 keys in 5 distributions with growth pressure at every position")
prop("C21", [
    H("strmap_%d" % o, "maps.c", "h_strmap", unwind=66, object_bits=14, defs={"OCC": o, "OCC_N": 2}) for o in range(4)
] + [H("strmap_any", "maps.c", unwind=66, thorough={"defs": {"SMAX": 5}}),
], bounds="every subset of 4 texts (full hash collision, prefix, empty) then any 2 puts or removes; any pair of texts up to 3 (thorough 5) characters")
prop("C22", [
    H("hashmap", "maps.c", unwind=9, object_bits=14), H("hashmap_any", "maps.c", unwind=9),
], bounds="3 keys, 5 hash collision patterns, every history of 4 puts; any 64-bit hash values for one history")

EVM = dict(src_defs={"event_manager.c": ["calloc=evm_calloc", "malloc=evm_malloc", "free=evm_free_"]})
prop("C23", [
    H("evm_%d%d" % (t, u), "evm.c", "h_evm", unwind=8, object_bits=14, defs={"T0": t, "T1": u}, **EVM) for t in range(3) for u in range(3)
] + [
    H("evm_cancel", "evm.c", "h_evm", unwind=8, object_bits=14, defs={"OUTSIDE_CANCEL": 1, "SCALE": "(1LL<<33)"}, **EVM),
    H("evm_any", "evm.c", unwind=4, defs={"NEV": 2, "MAXEV": 2, "EVM_ANY": 1}, timeout=200, **EVM), H("evm_ignored", "evm.c", unwind=8, **EVM),
], bounds="3 events at 3 times (every assignment), processed at 4 times, with one callback that cancels any event, itself, or schedules at a past, current or later time, or an outside cancel (64-bit times); scheduling order of any two 64-bit times below 2^62", assumptions=["the difference of the event time and the current time fits 63 bits"])
prop("C24", [
    H("fsm", "fsm.c", unwind=17, defs={"NT": 2, "NEVENTS": 1}), H("fsm_step", "fsm.c", unwind=17, timeout=300), H("fsm_queue", "fsm.c", unwind=10, defs={"FSM_QUEUE": 1}), H("fsm_bad_states", "fsm.c", unwind=10),
], bounds="every table of 3 transitions (one event from every state) or 2 transitions (reset then one event) over 3 states, every guard answer, one event posted by any handler; 0..8 posted events at every queue position; every 3 state ids")
prop("C25", [
    H("cli_edit", "cli.c", unwind=70, object_bits=14, defs={"NTYPE": 3}, cbmc=FS), H("cli_edit_echo", "cli.c", "h_cli_edit", object_bits=14, unwind=70, defs={"ECHO": 1, "NTYPE": 2}, thorough={"defs": {"ECHO": 1, "NTYPE": 3}}, cbmc=FS),
    H("cli_edit_64", "cli.c", "h_cli_edit", unwind=70, object_bits=14, defs={"PREFIX": 63, "NTYPE": 2}, thorough={"defs": {"PREFIX": 62, "NTYPE": 3}, "timeout": 3000}, cbmc=FS),
] + [
    H("cli_long_%d_%d_%d" % (n, e, o), "cli.c", "h_cli_long", unwind=90, defs={"PREFIX": n, "ERASE": e, "ODD": o}, cbmc=FS) for n, e, o in ((64, 0, 10), (65, 1, 63), (66, 2, 63), (70, 0, 30), (70, 7, 62), (67, 0, 64))
], bounds="any 3 typed characters of any kind from an empty line, any 2 after a 63 character line (thorough 3 after 62); lines of 64 to 70 characters with erasures")
prop("C26", [
    H("cli_args", "cli.c", unwind=70, object_bits=14, defs={"ALEN": 4}, thorough={"defs": {"ALEN": 5}}, cbmc=FS), H("cli_args_any", "cli.c", unwind=70, defs={"ALEN": 3}, thorough={"defs": {"ALEN": 4}}, cbmc=FS), H("cli_args_many", "cli.c", unwind=70, cbmc=FS), H("cli_args_long", "cli.c", unwind=130, cbmc=FS), H("cli_args_typed", "cli.c", unwind=70, cbmc=FS),
], bounds="command texts of 4 (thorough 5) characters each a letter, blank, tab or comma; any 3 (thorough 4) characters; 1..18 arguments; lengths 63 to 120; typed lines")
prop("C27", [
    H("cstr_copy", "cstr.c", unwind=16, defs={"SLEN": 8}, thorough={"defs": {"SLEN": 12}}), H("cstr_copy_exact", "cstr.c", unwind=16, defs={"SLEN": 5}),
    H("cstr_casecmp", "cstr.c", unwind=16, defs={"SLEN": 5}, thorough={"defs": {"SLEN": 8}}), H("cstr_starts_with", "cstr.c", unwind=16, defs={"SLEN": 6}, thorough={"defs": {"SLEN": 10}}),
], bounds="every text up to 8 (copy), 5 (comparison), 6 (prefix) characters of any byte value (thorough 12, 8, 10), every destination size")
prop("C28", [
    H("cstr_num", "cstr.c", unwind=26, defs={"SLEN": 6}, thorough={"defs": {"SLEN": 9}}), H("cstr_num_i32", "cstr.c", "h_cstr_num", unwind=26, defs={"SLEN": 6, "NUM_I32": 1}, thorough={"defs": {"SLEN": 9, "NUM_I32": 1}}),
    H("cstr_num_null", "cstr.c", unwind=16),
] + [
    H("cstr_range_%s%d" % ("i" if i else "u", k), "cstr.c", "h_cstr_num_range", unwind=26, tier=t, timeout=3000 if t == "thorough" else 600, defs=dict({"ND": nd, "PRE": '"%s"' % pre, "POST": '"%s"' % post, "HEXD": hx}, **({"NUM_I32": 1} if i else {})))
    for i, k, nd, pre, post, hx, t in (
        (0, 2, 9, "0x", "", 1, "quick"), (0, 3, 8, " 0x", "", 1, "quick"), (1, 3, 9, "-0x", "", 1, "quick"), (1, 4, 8, "0x", "", 1, "quick"),
        (0, 0, 6, "4294", "", 0, "quick"), (0, 1, 5, "", "99999", 0, "quick"), (0, 4, 5, "", "000000", 0, "quick"), (0, 5, 6, "04294", " ", 0, "quick"),
        (1, 0, 6, "-2147", "", 0, "quick"), (1, 1, 6, "+2147", "", 0, "quick"), (1, 2, 6, "2147", "", 0, "quick"), (1, 5, 5, "-", "99999", 0, "quick"), (1, 6, 5, "", "000000", 0, "quick"), (1, 7, 6, "-42949", "", 0, "quick"),
        (0, 10, 10, "", "", 0, "thorough"), (0, 11, 11, "", "", 0, "thorough"), (1, 10, 10, "-", "", 0, "thorough"), (1, 11, 11, "", "", 0, "thorough"))
], bounds="every text up to 6 (thorough 9) characters of any byte value; every 8 and 9 digit hexadecimal number; 10 and 11 digit decimals around the limits with 5 or 6 free digits (thorough: all 10 and 11 digit decimals)")
prop("C29", [
    H("cstr_fixed_args", "cstr.c", unwind=26), H("cstr_num_null", "cstr.c", unwind=16),
] + [
    H("cstr_fixed_%d" % e, "cstr.c", "h_cstr_fixed", unwind=26, tier="quick" if e in (0, 1, 2, 3, 8, 9, 10) else "thorough", defs={"SLEN": 5, "EXPO": e}, thorough={"defs": {"SLEN": 7, "EXPO": e}}) for e in range(12)
] + [
    H("cstr_fixed_range_%d" % k, "cstr.c", "h_cstr_fixed_range", unwind=26, tier=t, timeout=3000 if t == "thorough" else 600, defs={"ND": nd, "DOT": d, "PRE": '"%s"' % pre, "POST": '"%s"' % post, "EXPO": e})
    for k, nd, d, pre, post, e, t in (
        (0, 6, 0, "-2147", "", 6, "quick"), (1, 6, 3, "2147", "", 3, "quick"), (2, 6, 6, "-2147", ".99", 0, "quick"), (3, 6, 9, "+2147", "", 0, "quick"), (4, 5, 1, "", "9999999", 8, "quick"), (5, 5, 2, "-", "0 ", 6, "quick"), (6, 5, 0, "", "000000", 10, "quick"), (7, 5, 9, "-42949", "6729", 0, "quick"), (8, 5, 4, "-21474", "99", 5, "quick"),
        (10, 10, 5, "-", "", 5, "thorough"), (11, 10, 0, "", "", 9, "thorough"), (12, 11, 9, "", "", 1, "thorough"))
], bounds="every text up to 5 (thorough 7) characters of any byte value with scales 0..3 and 8..10 (thorough 0..11); numbers of 9 to 12 digits around the limits with 5 or 6 free digits and the point at several positions (thorough: all 10 and 11 digit numbers at 3 positions)")
prop("C30", [
    H("cstr_index", "cstr.c", unwind=16), H("cstr_bool", "cstr.c", unwind=20, defs={"SLEN": 9}, thorough={"defs": {"SLEN": 17}}), H("cstr_upper", "cstr.c", unwind=20, defs={"SLEN": 8}, thorough={"defs": {"SLEN": 16}}), H("cstr_hex", "cstr.c", unwind=8),
], bounds="keyword tables of up to 3 words of 2 characters and texts of 3; booleans of up to 9 (thorough 17) characters; case conversion of 8 (thorough 16); every character and byte for hex")
prop("C38", [
    H("clz", "misc.c"), H("pow2", "misc.c"), H("cdef", "misc.c"), H("round_up", "misc.c", thorough={"defs": {"RU_X": 2048, "RU_M": 130}}), H("round_up_const", "misc.c"),
    H("on_error", "misc.c"),
], bounds="all 32-bit arguments; round-up: any multiple up to 40 for |x| < 512, and multiples 1, 8, 10, 128, 4096 for |x| < 2^20")

prop("C39", [H("argchk", "misc.c"), H("dbc", "misc.c")], bounds="all int arguments")

prop("C40", [
    H("ec_names", "misc.c", unwind=82), H("ec_descriptions", "misc.c", unwind=82),
    H("log_tables", "misc.c", unwind=82), H("log_macros", "misc.c"),
], bounds="all int codes; strings up to 80 characters")

prop("C31", [
    H("crc8_step", "crc.c", unwind=33), H("crc16_step", "crc.c", unwind=33), H("crc32_step", "crc.c", unwind=33),
    H("crc8_chain", "crc.c", unwind=9, defs={"NB": 6}, thorough={"defs": {"NB": 16}, "unwind": 17}),
    H("crc16_chain", "crc.c", unwind=9, defs={"NB": 6}, thorough={"defs": {"NB": 16}, "unwind": 17}),
    H("crc32_chain", "crc.c", unwind=9, defs={"NB": 6}, cbmc=["--cvc5"], thorough={"defs": {"NB": 10}, "unwind": 17}),
], bounds="definition: every previous value and every byte; chaining: up to 6 (thorough 16; CRC-32 10) bytes, every split")

prop("C32", [
    H("crc8_detect", "crc.c", unwind=33, defs={"NB": 4}, thorough={"defs": {"NB": 8}}),
    H("crc16_detect", "crc.c", unwind=33, defs={"NB": 4}, thorough={"defs": {"NB": 8}}),
    H("crc32_detect", "crc.c", unwind=33, defs={"NB": 6}, thorough={"defs": {"NB": 8}}),
], bounds="messages of 4 (CRC-32: 6; thorough 8) bytes, every burst up to the checksum width")

prop("C33", [
    H("lfsr_recurrence", "lfsr.c", unwind=33, defs={"NK": 1}, thorough={"defs": {"NK": 2}}), H("lfsr_forms", "lfsr.c", unwind=33),
    H("lfsr_follow", "lfsr.c", unwind=17, thorough={"defs": {"NG": 8, "NBAD": 5}}),
], bounds="all seeds; up to 3 arbitrary bytes then 5 generated bytes")

prop("C34", [
    H("pat_tx_next", "pattern.c", unwind=12), H("pat_tx_buffer", "pattern.c", unwind=12),
], bounds="every position of the period; 6 words")

prop("C35", [
    H("pat_rx_intact_%d" % t, "pattern.c", "h_pat_rx_intact", unwind=36, defs={"NW": 4, "KMAX": 65535, "T0": t}, thorough={"defs": {"NW": 5, "KMAX": 200000, "T0": t}}) for t in (0, 1)
] + [
    H("pat_rx_%s_%d_%d" % (w, k, t), "pattern.c", "h_pat_rx_" + w, unwind=36, defs={"K0": k, "T0": t, "CBYTE": cb})
    for w in ("missing", "duplicate", "corrupt") for k, t, cb in ((65533, 0, 8), (31, 1, 16))
] + [
    H("pat_rx_corrupt_any", "pattern.c", "h_pat_rx_corrupt", unwind=36, tier="thorough"),
    H("pat_rx_buffer", "pattern.c", unwind=36),
], bounds="intact: 4 words from every position below 65535 pairs; gaps and repeats of 1..2000 words at two positions (counter wrap and shift wrap, either phase); one corrupted byte (thorough: any corrupted word)")

prop("C36", [
    H("stream_source_%d" % o, "stream.c", "h_stream_source", unwind=9, defs={"LMAX": 4, "STEPS": 6, "OWN": o}, thorough={"defs": {"LMAX": 5, "STEPS": 8, "OWN": o}, "timeout": 3000}) for o in (0, 1)
] + [
    H("stream_sink", "stream.c", unwind=9, defs={"STEPS": 5}, thorough={"defs": {"STEPS": 7}}), H("stream_close", "stream.c", unwind=9), H("stream_big", "stream.c", unwind=9, defs={"BIG": 200000, "STEPS": 5}),
    H("stream_both_203", "stream.c", "h_stream_both", unwind=8, defs={"LMAX": 2, "SRCBUF": 2, "SINKBUF": 0, "DST": 3, "NTR": 1}),
] + [
    H("stream_both_%d%d%d" % c, "stream.c", "h_stream_both", unwind=14, object_bits=12, defs={"LMAX": 5, "SRCBUF": c[0], "SINKBUF": c[1], "DST": c[2]}, cbmc=FS) for c in ((0, 2, 4), (4, 3, 2), (0, 1, 5), (3, 5, 3))
], bounds="source of up to 4 (thorough 5) bytes with every 6 (thorough 8) requests, responses and aborts, immediate or deferred; any length up to 200000 in 5 requests of any size; sink with every 5 (thorough 7) opens, writes, closes and destination changes; source connected to sink for up to two transfers of 1..5 bytes and 5 buffer combinations", assumptions=["one write in the source's own buffer at a time, as its API states"])

prop("C37", [
    H("time_to_counter_%d" % f, "time.c", "h_time_to_counter", defs={"FREQ": "%dll" % f}) for f in (1, 1000, 32768, 1000000, 1000000000)
] + [
    H("counter_to_time_%d" % f, "time.c", "h_counter_to_time", defs={"FREQ": "%dll" % f, "XBITS": b}, thorough={"defs": {"FREQ": "%dll" % f, "XBITS": bt}})
    for f, b, bt in ((1, 33, 33), (1000, 28, 33), (32768, 33, 33), (1000000, 16, 20), (1000000000, 12, 16))
] + [
    H("tick_round_trip_%d" % f, "time.c", "h_tick_round_trip", defs={"FREQ": "%dll" % f, "XBITS": b}, thorough={"defs": {"FREQ": "%dll" % f, "XBITS": bt}})
    for f, b, bt in ((1, 33, 33), (1000, 20, 28), (32768, 33, 33), (1000000, 14, 18), (1000000000, 12, 16))
] + [
    H("time_units", "time.c"), H("time_unit_names", "time.c"), H("time_abs", "time.c"), H("time_f64", "time.c"),
], bounds="frequencies 1, 1000, 32768, 1e6, 1e9 Hz; time to ticks: every product below 2^63; ticks to time: non-negative counts below 2^33 (1 Hz, 32768 Hz), 2^28 (1 kHz), 2^16 (1 MHz), 2^12 (1 GHz); double: |t| < 2^53")
