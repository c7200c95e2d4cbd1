"""What decides each property: harnesses, build configuration, bounds. Read by check.py and mkmanifest.py."""

DEFAULTS = dict(hooks=False, timeout=240, timeout_thorough=1500, assumptions=[], functions=[], outside="",
                technique="bounded symbolic execution of the compiled Rust code (Kani/CBMC), decided by SAT (MiniSat, CaDiCaL)")

NOT_APPLICABLE = {}

PROPS = {}


def P(id, **kw):
    PROPS[id] = kw


P("C01", groups=[dict(quick=["endian::big", "endian::little", "endian::exported_big"]),
                 dict(quick=["endian::exported_little"], features="little")],
  validate=["endian::big"],
  bounds="none on values: all 2^16, 2^32 and 2^64 inputs of each helper; both settings of the feature",
  outside="big-endian hosts",
  functions=["lcms2::io::{big_endian,little_endian,io}::adjust_endianness_{16,32,64,u16,u32,u64}"])
P("C02", groups=[dict(quick=["prims::u8s", "prims::u16s", "prims::u32s", "prims::u64s", "prims::f32s",
                             "prims::mixed"])],
  validate=["prims::mixed"],
  bounds="all values of each type; buffer of 20 bytes with any contents, any position in it",
  outside="longer buffers", functions=["IOHandler::{read,write}_{u8,u16,u32,u64,f32} over FileMem"])
P("C03", groups=[dict(quick=["prims::array_read", "prims::array_write"], solver="cadical"),
                 dict(quick=["long::array_in_80", "long::array_out_80"], thorough=["long::array_in_300", "long::array_out_300"])],
  validate=["long::array_in_80"],
  bounds="arrays of 0 to 6 elements, any contents, any position and end of the source or sink within 12 bytes; arrays of "
         "80 (thorough: 300) elements, of which any one is arbitrary", outside="longer arrays", functions=["IOHandler::{read,write}_u16_array"])
P("C04", groups=[dict(quick=["prims::s15_read"])], validate=["prims::s15_read"],
  bounds="none on values: all 2^32 encodings", functions=["IOHandler::read_s15f16", "s15f16_to_f64"])
P("C05", groups=[dict(quick=["prims::s15_write", "prims::s15_round_trip"])], validate=["prims::s15_write"],
  bounds="none on values: all 2^64 doubles; all 2^32 encodings for the round trip",
  assumptions=["'nearest' is judged with the distance computed in double precision: for 0.49999999999999994/65536 "
               "the stored number is 1, which is 2^-54 too far off, as in the C library"],
  functions=["IOHandler::write_s15f16", "f64_to_s15f16"])
P("C06", groups=[dict(quick=["prims::xyz_read", "prims::xyz_write"])],
  bounds="all 2^96 encodings, buffer of 16 bytes with any contents, any position in it",
  functions=["IOHandler::read_xyz", "IOHandler::write_xyz"])
P("C07", groups=[dict(quick=["memfile::fixed_3", "long::memory_300"], thorough=["long::memory_5000"]), dict(quick=[], thorough=["memfile::fixed_5"], solver="cadical")], validate=["memfile::fixed_3"],
  bounds="quick: 3 operations on 4 bytes; thorough: 5 operations on 5 bytes; transfers of 0 to 3 bytes, all 64 bit "
         "seek arguments, any contents; a read and a write of 260 of 300 (thorough: 4200 of 5000) bytes",
  outside="longer histories and transfers",
  functions=["<FileMem as IOHandler>::{read,write,seek,tell}"])
P("C08", groups=[dict(quick=["memfile::growing_sparse", "memfile::growing_2"], thorough=["memfile::growing_3"])],
  bounds="a seek, a write of 1 or 2 bytes, a seek to any 64 bit position, a read of 1 or 2; and 2 (thorough: 3) "
         "operations of any kind; on a Vec of 2 bytes, writes at positions up to 8",
  outside="longer histories; reallocation of the Vec beyond the capacity (that is std's part)",
  functions=["<FileMem<&mut Vec<u8>> as IOHandler>::{read,write,seek,tell}"])
P("C09", groups=[dict(quick=["nullfile::history_4", "nullfile::typed_zero", "long::nothing_300"],
                      thorough=["nullfile::history_7", "long::nothing_4200"])],
  validate=["nullfile::typed_zero"],
  bounds="4 (thorough: 7) operations, transfers of 1 to 4 bytes, all 64 bit seek arguments; a write and a read of 300 "
         "(thorough: 4200) bytes",
  outside="longer histories; empty transfers", functions=["<FileNull as IOHandler>::*", "IOHandler::reported_size"])
P("C10", groups=[dict(quick=["size::memory", "size::growable", "size::null", "size::faulty"])],
  validate=["size::faulty"],
  bounds="memory files of up to 6 bytes, null devices and model devices of any size, any 64 bit position; a failure "
         "at any single operation", functions=["IOHandler::reported_size"])
P("C11", groups=[dict(quick=["file::reads", "file::writes", "file::seeks", "file::tells", "file::closes",
                             "file::reads_long", "file::writes_long", "file::reads_pages", "file::writes_pages", "file::reads_longer", "file::writes_longer"])],
  validate=["file::tells", "file::closes"],
  bounds="transfers of 0 to 3 bytes, any contents; the system transfers any part of them, is interrupted, fails or ends, "
         "in every order, over at most 5 calls; transfers of 300 bytes, of which any one is arbitrary, and of 9000 and 70000 (how "
         "many bytes are moved), in at most 3 calls; all positions up to i64::MAX", outside="other long transfers; the kernel",
  assumptions=["the system calls behind std::fs::File are replaced by a model of them (file.rs: Os); positions and "
               "absolute seeks up to i64::MAX, which is all a 64 bit file system has"],
  functions=["<File as IOHandler>::{read,write,seek,tell,close}", "std: read_exact, write_all"])
P("C12", groups=[dict(quick=["prims::faulty_reads", "prims::faulty_writes"])], validate=["prims::faulty_writes"],
  bounds="one call of each typed operation (arrays of 3), a failure at any one of its transfers, five error kinds",
  functions=["IOHandler::{read,write}_*"])
P("C13", hooks=True, groups=[dict(quick=["codec::header", "codec::header_encode"])], validate=["codec::header"],
  bounds="none on values: all 2^1024 headers", functions=["ICCHeaderConverter::{from_bytes,to_bytes}"])
P("C14", hooks=True, groups=[dict(quick=["codec::entry"])], validate=["codec::entry"],
  bounds="none on values: all 2^96 entries", functions=["TagEntryConverter::{from_bytes,to_bytes}"])

SOURCE = ["the profile is read from a model device which hands out the bytes of an array (the file handlers are decided "
          "by C07 to C11), the clock is stopped, and messages are not formatted"]
OPEN = ["Profile::read_header_thr", "ICCHeaderConverter::from_bytes", "TagEntryConverter::from_bytes",
        "IOHandler::reported_size", "IOHandler::read_u32", "DateTimeNumber -> NaiveDateTime"]
# as many tags as are allowed
HUNDRED = dict(quick=["profile::hundred"], timeout=700, cbmc=["--max-field-sensitivity-array-size", "1210"])
P("C15", hooks=True, groups=[dict(quick=["profile::short_ones", "profile::bare_ones", "profile::complete_0", "profile::complete_1",
                                         "profile::complete_3", "profile::complete_8", "profile::cut_0_of_1",
                                         "profile::cut_1_of_2", "profile::cut_2_of_100", "profile::cut_7_of_9"],
                                  thorough=["profile::complete_20", "profile::cut_19_of_20"]),
                             dict(HUNDRED, quick=[], thorough=["profile::hundred"])],
  validate=["profile::short_ones"],
  bounds="sources with any contents, of 0 to 132 bytes, or longer with 0, 1, 3 and 8 (thorough: 20) tags, or cut off anywhere "
         "in the first of 1, the second of 2, the third of 100 and the eighth of 9 (thorough: last of 20) table entries; any "
         "number of tags but 0 announced at the very end of the source",
  outside="sources with more complete table entries, but for one directory of 100", assumptions=SOURCE, functions=OPEN)
P("C16", hooks=True, groups=[dict(quick=["profile::short_ones", "profile::bare_ones", "profile::complete_1", "profile::cut_0_of_1",
                                         "profile::cut_2_of_100"],
                                  thorough=["profile::complete_20", "profile::cut_19_of_20"])],
  validate=["profile::short_ones"],
  bounds="sources with any contents, of 0 to 132 bytes and any number of tags, or longer with 1 (thorough: 20) tags, or cut off "
         "anywhere in the first of 1 and the third of 100 (thorough: last of 20) table entries",
  outside="other longer sources; the text of the message", assumptions=SOURCE, functions=OPEN + ["Context::signal_error"])
P("C17", hooks=True, groups=[dict(quick=["profile::header_fields"])], validate=["profile::header_fields"],
  bounds="all headers with the magic number, no tags", outside="profiles with tags",
  assumptions=SOURCE, functions=OPEN)
P("C18", hooks=True, groups=[dict(quick=["profile::directory_2", "profile::directory_3", "profile::directory_8"],
                                  thorough=["profile::directory_12"]), HUNDRED], validate=["profile::directory_2"],
  bounds="directories of 2, 3 and 8 (thorough: 12) entries with any contents, any sizes of source and header; one of 100 "
         "fixed entries, but for the last, which is arbitrary",
  outside="other large directories", assumptions=SOURCE, functions=OPEN)
P("C19", hooks=True, groups=[dict(quick=["profile::links_2", "profile::links_3", "profile::links_5"], thorough=["profile::links_6"]),
                                  dict(HUNDRED, quick=[], thorough=["profile::hundred"])],
  validate=["profile::links_2"],
  bounds="directories of 2, 3 and 5 (thorough: 6, and one of 100 of which the last is arbitrary) entries with any contents, any sizes of "
         "source and header",
  outside="larger directories", assumptions=SOURCE, functions=OPEN)
P("C20", hooks=True, groups=[dict(quick=["profile::found_2", "tags::search_3", "tags::search_4"],
                                  thorough=["profile::found_3", "profile::found_5", "tags::search_6"])], validate=["tags::search_3"],
  bounds="directories of 2 (thorough: 3 and 5) entries as parsed from any table, and of 4 (thorough: 6) linked as C19 says, any "
         "signature", outside="larger directories", assumptions=SOURCE,
  functions=OPEN + ["Profile::search_tag", "Profile::search_one_tag"])
P("C21", hooks=True, groups=[dict(quick=["tags::nth"])], validate=["tags::nth"],
  bounds="none: all numbers of tags, all 64 bit indices, any place in the directory",
  functions=["Profile::get_tag_signature", "Profile::get_tag_count"])
FS = ["--max-field-sensitivity-array-size", "100"]
P("C22", hooks=True, groups=[dict(quick=["tags::equality_first", "tags::equality_last"], cbmc=FS, unwind=1700),
                             dict(quick=[], thorough=["tags::equality_any"], solver="cadical", unwind=1700)],
  bounds="all pairs of headers, of access modes and of numbers of tags; directories which differ in the first or last "
         "of 100 entries (thorough: in any one), in any of its fields; two creation times",
  outside="directories which differ in several entries; other pairs of creation times",
  functions=["<Profile as PartialEq>::eq", "<ProfileID as PartialEq>::eq", "<Signature as PartialEq>::eq"])
P("C23", hooks=True, groups=[dict(quick=["profile::faults_first", "profile::faults_1", "profile::faults_2", "profile::faults_5"], thorough=["profile::faults_12"])],
  validate=["profile::faults_1"],
  bounds="a failure at any operation (one kind for the first six, five kinds later), profiles with 1, 2 and 5 (thorough: 12) entries "
         "of any contents",
  outside="more entries; several failures (none is retried)", assumptions=SOURCE, functions=OPEN)
FILES = ["--max-field-sensitivity-array-size", "140"]
P("C24", hooks=True, groups=[dict(quick=["open::for_reading", "open::for_reading_many", "open::for_writing"], cbmc=FILES)], validate=["open::for_reading"],
  bounds="any answer of the system to the opening; for reading, files of 132 bytes with any contents and no or too many "
         "tags", outside="other files (C15 to C23 decide the parsing); the kernel",
  assumptions=["the system calls behind std::fs::File are replaced by a model of them (open.rs: Os)"] + SOURCE[1:],
  functions=["Profile::open_from_file{,_thr}"] + OPEN)
P("C25", groups=[dict(quick=["dates::decode"])], validate=["dates::decode"],
  bounds="none: all 2^96 stored dates", functions=["NaiveDateTime::from(DateTimeNumber)", "chrono"])
P("C26", groups=[dict(quick=["dates::encode"])], validate=["dates::encode"],
  bounds="none: all valid dates of the years 0 to 65535", functions=["DateTimeNumber::from(NaiveDateTime)", "chrono"])
P("C27", groups=[dict(quick=["sigs::arrays", "sigs::slices", "sigs::text"])], validate=["sigs::slices"],
  bounds="arrays and slices of 0 to 6 bytes, UTF-8 texts of 0 to 6 bytes with multi-byte characters in five arrangements", outside="longer ones",
  functions=["Signature::new", "Signature::{from,try_from}(u32, [u8; N], &[u8], &str, ...)"])
P("C28", groups=[dict(quick=["sigs::back", "sigs::to_text"])], validate=["sigs::back"],
  bounds="none: all 2^32 signatures", functions=["u32, [u8; 4], String::from(Signature)", "<Signature as PartialEq>::eq"])
P("C29", groups=[dict(quick=["sigs::ids"])], validate=["sigs::ids"],
  bounds="none: all pairs of 16 bytes", functions=["<ProfileID as PartialEq>::eq"])
CTX = ["messages are not formatted"]
P("C34", hooks=True, groups=[dict(quick=["ctx::chain_1", "ctx::chain_3"], thorough=["ctx::chain_5"])],
  validate=["ctx::chain_1"],
  bounds="chains of 1 and 3 (thorough: 5) plug-ins with any magic number, version and type", outside="longer chains",
  assumptions=CTX, functions=["Context::init_plugin", "Context::signal_error"])
P("C35", hooks=True, groups=[dict(quick=["ctx::kinds"])], validate=["ctx::kinds"],
  bounds="all nine kinds, with arbitrary numbers in them", functions=["PluginType::is_*"])
P("C36", hooks=True, groups=[dict(quick=["ctx::defaults"])],
  bounds="user data: none, or up to 3 bytes", outside="longer user data", assumptions=CTX,
  functions=["Context::new", "Default of the chunks", "Context::signal_error"])
P("C37", hooks=True, groups=[dict(quick=["ctx::copied", "ctx::copied_data", "ctx::copied_lists", "ctx::copied_300"])],
  validate=["ctx::copied"],
  bounds="no user data, any 3 bytes, or 300 of which one is arbitrary; any alarm colours and adaptation state; no and one plug-in of each kind",
  outside="other user data, longer lists", assumptions=CTX, functions=["<Context as Clone>::clone", "Clone of the chunks"])
P("C38", hooks=True, groups=[dict(quick=["ctx::reported", "ctx::reported_300"])], validate=["ctx::reported"],
  bounds="two contexts, any code, texts of 0 to 4 bytes, and of 300 of which one is arbitrary; one signal",
  outside="other texts",
  functions=["Context::signal_error"])
P("C40", hooks=True, groups=[dict(quick=["open::shared_reading", "open::shared_reading_many", "open::shared_writing"], cbmc=FILES)], validate=["open::shared_reading"],
  bounds="other users of the context: one which may have it at first, and may take it once more at any system call of the "
         "opening, and keeps it as long as it likes, or until the opening waits for it; files of 132 bytes with any contents "
         "and no or too many tags; any answer of the system",
  outside="switches between system calls (the context is locked there, or not in use); longer files (C15 to C23)",
  assumptions=["std's Mutex excludes; the global context was made before threads use it; the system calls behind "
               "std::fs::File are replaced by a model of them (open.rs)"] + SOURCE[1:],
  functions=["Profile::open_from_file{,_thr}", "GLOBAL_CONTEXT", "std::sync::Mutex"] + OPEN)
P("C39", groups=[dict(quick=["prims::u8s", "prims::u16s", "prims::u32s", "prims::u64s", "prims::f32s", "prims::mixed",
                             "prims::s15_read", "prims::xyz_read", "prims::xyz_write"], features="little"),
                 dict(quick=["prims::array_read", "prims::array_write"], features="little", solver="cadical")],
  validate=["prims::mixed"],
  bounds="as for C02 to C06, with the feature on", functions=["IOHandler::{read,write}_* over FileMem"])

IR = ("symbolic execution of the LLVM IR rustc makes of the code (ir.py: every path, over the reals with pow, exp and log "
      "as uninterpreted functions), decided by z3")
EXACT = ["real numbers for doubles: rounding, overflow, NaN and signed zeros are outside; pow, exp, ln and log10 are "
         "uninterpreted functions with a few axioms (sign, values at 0 and 1, equal arguments give equal values)"]
CURVES = (1, 2, 3, 4, 5, 6, 7, 8, 108, 109)
BOUNDS = "none on values: all real parameters and inputs%s; every path through the code"
P("C30", technique=IR, groups=[dict(ir=["curve:%d" % i for i in range(1, 7)])], assumptions=EXACT,
  bounds=BOUNDS % "", outside="rounding, infinities and NaN; zero divisors where the definition has no guard",
  functions=["default_eval_parametric_fn, types 1 to 6"])
P("C31", technique=IR, groups=[dict(ir=["curve:-%d" % i for i in range(1, 7)])], assumptions=EXACT,
  bounds=BOUNDS % "", outside="rounding, infinities and NaN; zero divisors where the definition has no guard",
  functions=["default_eval_parametric_fn, types -1 to -6"])
P("C32", technique=IR, groups=[dict(ir=["curve:%d" % (k * i) for i in (7, 8, 108, 109) for k in (1, -1)])],
  assumptions=EXACT, bounds=BOUNDS % "",
  outside="rounding, infinities and NaN; zero divisors where the definition has no guard",
  functions=["default_eval_parametric_fn, types 7, 8, 108, 109 and reversed", "sigmoid_*"])
P("C33", technique=IR + "; the lookup by Kani/CBMC",
  groups=[dict(ir=["others"] + ["enough:%d" % (k * i) for i in CURVES for k in (1, -1)]),
          dict(quick=["curves::lookup"])], assumptions=EXACT, validate=["curves::lookup"],
  bounds="none: all 2^32 types, all lengths of the parameter slice, all real parameters and inputs",
  functions=["ParametricCurves::{default, is_in_set}", "default_eval_parametric_fn"])
P("C41", technique=IR, groups=[dict(ir=["roundtrip:%d" % i for i in CURVES])],
  assumptions=["real numbers for doubles: rounding is outside, so this decides the inverse exactly and not within a "
               "tolerance; pow, exp, ln and log10 are uninterpreted functions with the laws of powers and logarithms"],
  bounds=BOUNDS % " where the forward curve is strictly monotonic (conditions in ir.py: invertible)",
  outside="how large rounding errors get", functions=["default_eval_parametric_fn, all types"])

P("C42", groups=[dict(quick=["curves::%s%d" % (k, i) for i in CURVES for k in "tu"], flags=["--no-overflow-checks"])],
  validate=["curves::t5"],
  bounds="none on values: all doubles, 0 to 7 parameters more than needed; the results of powf, exp and logarithms are any doubles",
  assumptions=["arithmetic of doubles itself never panics (so Kani's checks that it gives no NaN are off)"],
  functions=["default_eval_parametric_fn", "sigmoid_*"])
