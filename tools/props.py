# what each check is made of.  level "proof": the functions the property rests on are under
# contract and every obligation is discharged; the bounded part replays failures on the real code and
# stands in for the functions named in `bounded`.
#   what    what the contracts say (DESIGN.md and evidence)
#   assume  contracts assumed rather than proved (evidence, DESIGN.md)
#   bounded what only the bounded part covers
PROPS = {
 "A01": dict(units=["A01"], harness=["a01_paths", "a04_wheel"],
   what="check_path_piece, the three NicePathBuf::try_from, len, contains, join, slice and Display: a path is accepted iff its textual resolution exists and every component is safe, the accepted pieces are exactly that resolution, and the operations act on the sequence of pieces. A struct invariant (every piece safe) is a postcondition of every constructor.",
   assume=["typed_path::UnixPath::components yields the components Unix gives a byte string", "std::str::from_utf8 and the std string helpers (is_empty, ends_with, contains, join)", "fields of NicePathBuf are not written elsewhere (private to tree.rs)"],
   bounded="that the components iterator of the typed-path crate is what the contract says; the use of script names and entry points (v_a01_script_names)"),
 "A02": dict(units=["A02"], harness=["a02_symlinks"],
   what="NiceSymlinkPaths::new: accepted iff the target resolves inside the tree; the stored target is '..'* followed by safe names and resolves to the same place; the loop invariant ties the '..' count to the depth of the link.",
   assume=["typed_path component iterator", "std string helpers"], bounded="nothing the contracts leave out"),
 "A03": dict(units=["A03", "A03f"], harness=["a03_unpack"],
   what="unpack_zip_carefully and unpack_tar_gz_carefully against a ghost log of the operations on the destination: the log is exactly the members in archive order with validated paths, mode bits and contents, followed by the symlinks, deepest first; any unsafe member, link or device is an error. WriteTreeFS (new, full_path, mkdir, write_file, write_symlink, with NicePathBuf's conversion to a native path) against a ghost tree: each operation makes exactly what it says at its own place below the root, makes the directories on the way there, replaces nothing, and even when it fails touches nothing else; a lemma over the whole history of an archive: no operation ever passes through a link of the archive, and in the end there is exactly what the archive lists.",
   assume=["the zip and tar crates report the archive's members (names, modes, bytes)", "sort_by_key and rev of std", "NicePathBuf::try_from and NiceSymlinkPaths::new by the contracts proved in A01, A02", "std::fs on Unix: create_dir_all, opening with create_new and mode, symlink; the umask leaves the owner's bits; paths that differ are different files", "the directory unpacked into is new, and nobody else changes it meanwhile"],
   bounded="std::fs itself, on real directories (v_a03_fs)"),
 "A04": dict(units=["A04"], harness=["a04_wheel"],
   what="analyze_path, mkdir, write_file and write_symlink of WheelTreeTransformer, make_trampoline and the two maker closures, find_special_wheel_dir and get_vitals: where each member goes, what is written, which members become launchers of which kind, which special directory is used.",
   assume=["zip writer, format machinery and the three regexes", "RFC822ish/metadata parsing (contracts of M01)", "path operations by the contracts of A01", "the launcher templates (bytes embedded in the binary)", "directory names containing a newline are left out"],
   bounded="whole wheels and running the unix launchers (v_a04_unpack, v_a04_special_dir)"),
 "R01": dict(units=["R01"], harness=["r01_pep440"],
   what="VERSION_ZERO, VERSION_INFINITY, is_prerelease, next, parse_version_wildcard, CompareOp::to_ranges, Specifier(s)::satisfied_by: equal to a specification of PEP 440 written independently over (epoch, release, pre, post, dev, local), for all versions; lemmas relate half-open ranges to the operators.",
   assume=["the pep440 crate's parser (uninterpreted; the two literals of posy are given their meaning)", "Ord of pep440::Version is the specified order (bounded: v_r01_order)", "numeric components are below u32::MAX"],
   bounded="the order of the pep440 crate (v_r01_order)"),
 "R02": dict(units=["R02"], harness=["world", "r02_constraints", "r02_e2e"],
   what="specifiers_to_pubgrub, add_constraint, requirements_to_pubgrub, PubgrubState::metadata, get_or_fill, WheelResolveMetadata::from, get_dependencies, the Version impl for pubgrub and pubgrub's own Range::any: for every package the final constraint admits v iff every applicable requirement on it is satisfied by v; p[x] pins p to the same version; nothing else gets a constraint. Marker evaluation and specifiers are the proved functions of R03 and R01.",
   assume=["Range::intersection/union/between/exact of pubgrub are the set operations", "DependencyConstraints is a map", "PackageDB::get_metadata returns the metadata of one of the files it is given", "texts compared as versions hold only numbers below u32::MAX"],
   bounded="that pubgrub's Range does what is assumed; the whole chain to pins (v_r02_e2e)"),
 "R03": dict(units=["R03"], harness=["world", "r03_simplify"],
   what="simplify_out_extra and the Simplified helpers, with EnvMarkerExpr::eval and Value::eval: by induction over the expression the result never mentions 'extra', and evaluates in every environment to the value of the original marker with 'extra' set, wherever the original has one; an error is returned iff some comparison mixes 'extra' with something that is not fixed.",
   assume=["as R04"], bounded="nothing the contracts leave out"),
 "R04": dict(units=["R04"], harness=["r04_markers"],
   what="EnvMarkerExpr::eval, Value::eval, is_extra: equal to a specification of PEP 508 evaluation over the expression tree.",
   assume=["version and specifier parsing (uninterpreted functions of the text)", "string order and substring search of std", "texts compared as versions hold only numbers below u32::MAX", "the value given for extra is in normalized form"],
   bounded="real environments and texts (v_r04_eval)"),
 "R05": dict(units=["R05"], harness=["world", "r05_versions"],
   what="allow_pre_for, VersionHints::new/add_pinned/from, fetch_and_sort_versions, get_or_fill, PubgrubState::versions, choose_package_version, resolve_pybi: the list offered is exactly the versions that qualify, pinned first, then newest to oldest, each once; the version chosen is the first offered within the solver's range.",
   assume=["PackageDB's table of files (contract of P01)", "FrozenMap of elsa is an insert-only map", "specifier parsing"],
   bounded="the prerequisites across a whole resolve (v_r05_resolve)"),
 "R06": dict(units=["R06"], harness=["world", "r06_resolve", "r06_install"],
   what="compatibility, max_compatibility, all_tags (both impls), pick_best_pybi, pick_pinned_binary: the file returned is eligible, belongs to the first platform with an eligible file, and no eligible file for it scores better; failure iff none is eligible.",
   assume=["IndexSet of indexmap", "PackageDB's table (P01)", "the sort of candidates is a sort by score"],
   bounded="the choice of the wheel whose metadata is read (resolve.rs), whole installs"),
 "R07": dict(units=["R07"], harness=["r07_tags"],
   what="expand_platform_tag (with the three regex constants pinned to their meaning), PybiPlatform::new, core_tag, wheel_platform: the list of tags equals a specification written independently (all lower versions, aliases, fat formats, order, no duplicates).",
   assume=["the regex crate implements the three patterns (pinned by their text)", "IndexSet of indexmap", "numbers in tags are at most u32::MAX; macOS 11 and later are numbered N_0; fat formats are those of x86_64 and arm64"],
   bounded="the regexes themselves (v_r07_expand)"),
 "N01": dict(units=["N01"], harness=["n01_names"],
   what="PackageName/Extra parsing, normalization, eq, cmp, hash: equality, order and hash are those of the PEP 503 normal form; the text given is kept.",
   assume=["the two regexes (pinned by their text)", "str::make_ascii_lowercase", "the try_from_str_boilerplate macro forwards to TryFrom<&str>"],
   bounded="the regexes themselves"),
 "N02": dict(units=["N02"], harness=["n02_filenames"],
   what="generic_parse, the three TryFrom<&str>, BuildTag, the three Display, all_tags, split_multiplatform_pybis, ArtifactName dispatch: parse is the specified split; lemma: parsing the printed name gives the name back; tags are the product.",
   assume=["the three regexes (pinned by their text)", "the printed form of a version reads back as that version and holds no '-'", "format machinery"],
   bounded="the round trip of versions (v_n02_sdist, v_n02_binary)"),
 "C01": dict(units=["C01"], harness=["c01_hash", "c01_fetch"],
   what="HashChecker (write, finish), ArtifactHash (parse, from, checker), the store and get_hashed: whatever is returned for a hash is content with that digest, on every path (stored, cached, streamed); a mismatch stores nothing.",
   assume=["ring's digest is a function of the bytes fed to it", "std::fs/tempfile as in the World model of contracts/store.vrs"],
   bounded="partial and failing writers on the real code; get_hashed end to end with a stand-in server"),
 "C02": dict(units=["C02"], harness=["c02_store", "c02_http"],
   what="everything in kvstore.rs (both stores, locks, commit, path suffixes, keys) and key_for_request, over a ghost file system: an entry appears only with the complete value, is returned unchanged without calling the producer, is untouched by a failing producer; distinct keys give distinct paths inside the store; asking creates no entry.",
   assume=["std::fs, tempfile and flock as in the World model of contracts/store.vrs", "base64 of distinct strings is distinct and its alphabet is as given", "SHA-256 does not collide on the keys used", "an existing entry can be opened"],
   bounded="the real file system (v_c02_*)"),
 "L01": dict(units=["L01"], harness=["l01_lock"],
   what="lock, KVFileLock, LockedWrite, KVFileStore, KVDirLock and KVDirStore under rely and guarantee: a lock handed out is an exclusive lock granted on that very entry's lock file, whatever the mode; an entry is read, put in place or removed, and a producer run, only with that lock in hand (a lock lives as long as its handle: Rust ownership), the producer only where nothing was found under that lock, and a directory is renamed into place only once its producer has succeeded in a private directory. If every process does so, what is seen under a lock stays so, and C02's sequential contracts hold in between.",
   assume=["flock(2): granted to one open file at a time, released when it is closed or its process dies", "rename within a file system is one step; temporary names are unique", "nobody else writes in the store's directory", "readers outside the lock have a file that is replaced, never changed, or a directory that is never changed"],
   bounded="real processes and threads at one store, and one killed half-way (v_l01_*)"),
 "Q01": dict(units=["Q01"], harness=["q01_text"],
   what="every rule of the grammar (taken mechanically from the peg text and translated to functions with peg's meaning of each operator: tools/peg.py), CompareOp, PackageRequirement, UserRequirement, PythonRequirement, StandaloneMarkerExpr and Specifiers try_from, Requirement::parse, and all the Display printers: accepted exactly as an independent reading of PEP 508 says, with that meaning; lemmas prints_what_it_read, prints_the_marker_it_read, prints_the_versions_it_read: what is printed for something that was read is read again as the same.",
   assume=["peg generates what its documentation says (ordered choice, greedy repetition, no backtracking into a repetition), as stated in tools/peg.py; cached rules return what reading again returns", "format! and to_string give what Display writes", "names and extras as N01 proves"],
   bounded="the time taken on long and nested text (v_q01_long); the generated parser itself (v_q01_requirements, v_q01_parts)"),
 "K01": dict(units=["K01"], harness=["k01_written"],
   what="what derive(Serialize, Deserialize) makes of Brief, Blueprint, PinnedPackage, WheelResolveMetadata(Inner), AllowPre and its helper, Extra, PackageName and every part written as text is written out mechanically from the definitions and their attributes (tools/derived_json.py: rename_all, rename, alias, default, skip.., skip_serializing_if, flatten, serialize_with, try_from/into, untagged); AllowPre's conversions and default, allow_pre_is_empty, serialize_marker_exprs, PackageName's Serialize, ArtifactHash's Display, try_from and from_hex, and all of Q01's functions are under contract; lemmas briefs_read_back and blueprints_read_back: reading what was written gives back what it was, for every value whose parts were read from text.",
   assume=["serde, serde_with and serde_json do what they document for these attributes, as stated in tools/derived_json.py; JSON text holds the value written", "pep440::Version reads what it prints", "hash tables and sets list each element once, in some order", "format!, hexadecimal and str::split_once of std and data_encoding", "FromStr (try_from_str_boilerplate!) is TryFrom<&str>"],
   bounded="the derived code and serde_json themselves, four ways of reading, the order of the marker expressions (v_k01_*)"),
 "H01": dict(units=["H01"], harness=["h01_http"],
   what="one_request, request, get and the cache functions over a ghost network and cache: which exchanges happen, what is stored, what is returned for each cache mode and cache state; the redirect loop with its bound and base address.",
   assume=["the http-cache-semantics policy decides freshness and storability", "its CBOR form reads back as itself", "ureq, url and http crates", "do_request's retries count as one exchange (H02)"],
   bounded="the real policy crate and a scripted server"),
 "H02": dict(units=["H02"], harness=["h02_retry", "h02_eintr"],
   what="call_with_retry and retry_interrupted with the constants: over a ghost sequence of outcomes, the number of attempts, the delays and the outcome returned.",
   assume=["ureq's call and error kinds", "thread::sleep and the clock"],
   bounded="nothing the contracts leave out"),
 "H03": dict(units=["H03"], harness=["h03_lazy"],
   what="LazyRemoteFile new, seek, copy_loaded, load_range, read: a representation invariant (loaded parts agree with the remote file, do not overlap, lie inside it) kept by every operation; bytes returned are those of the file; only missing ranges inside the file are requested; no overflow.",
   assume=["fetch_range returns the bytes asked for (faithful server)", "BTreeMap of std"],
   bounded="fetch_range with a scripted server"),
 "S01": dict(units=["S01"], harness=["s01_window", "s01_cache"],
   what="SeekSlice::new/seek/read and checked_add_signed against the separate-file contract for every file, window, position and buffer; fill_cache and read_cache: the body read back is the body stored.",
   assume=["std::io::Read/Seek of the underlying file obey their documented contract", "CBOR of a policy reads back as itself and tells its length", "i64::unsigned_abs"],
   bounded="nothing the contracts leave out"),
 "B01": dict(units=["B01"], harness=["world", "b01_build"],
   what="new_build_stack, WheelBuilder::new, locally_built_wheel, locally_built_metadata: refused iff the package is in the stack, else the stack passed on is the old one with that package appended; pep517, pep517_step and get_env_for_build hand exactly that stack to everything they resolve, install and build.",
   assume=["Brief::resolve and EnvForest::get_env build with the stack they are given (stated where T01 and V01 call WheelBuilder::new)", "the wheel cache"],
   bounded="whole builds with loops (v_b01_e2e)"),
 "B02": dict(units=["B02", "B02N"], harness=["world", "b02_build"],
   what="PybiPlatform::native_platforms, is_native, core_tag and compatibility (B02N), WheelBuilder::new, get_env_for_build, pep517_step, pep517, locally_built_wheel, locally_built_metadata, check_built_from, the default build system, Version::is_prerelease: which interpreter and requirements a build gets, what is run, which cached wheel is used, what is stored and under which name, and that only the release asked for is handed on.",
   assume=["resolve and get_env (V01, R02, R06)", "Wheel::new/metadata (N02, M01), max_compatibility (R06), the tags a core tag implies (R07)", "the machine's own core tags (core_platform_tags: reads the C libraries present) and once_cell", "TOML and JSON parsing, the file system and child processes as recorded in the unit's stubs", "the Python build frontend (run for real in the bounded part)"],
   bounded="the build frontend, archives, interpreters and caches end to end (v_b02_*)"),
 "M01": dict(units=["M01", "M01T"], harness=["m01_metadata", "m01_fields", "m01_format"],
   what="every rule of the grammar of metadata files (translated mechanically from the peg text by tools/peg.py) and RFC822ish::parse against an independent reading of the lines (M01T); RFC822ish take_all/maybe_take_the/take_the, parse_common, the two TryFrom of core metadata, parse_format_metadata_and_check_version: fields are a function of the parsed lines as specified, errors included.",
   assume=["peg generates what its documentation says, as stated in tools/peg.py", "parsers of names, versions, requirements", "HashMap and String of std"],
   bounded="the generated line parser itself (v_m01_lines)"),
 "E01": dict(units=["E01"], harness=["e01_entry", "a04_wheel"],
   what="parse_entry_points with its four regex constants, script_for_entrypoint and Wheel::unpack: the entries are those of an independent reading of the lines; the script text and the launcher kind follow from the entry.",
   assume=["the four regexes (pinned by their text)", "format machinery", "the tree written to is A04's transformer"],
   bounded="the regexes themselves; running the scripts"),
 "P01": dict(units=["P01"], harness=["world", "p01_index"],
   what="ArtifactName::version, pack_by_version, PackageDB::available_artifacts, artifacts_for_version: the table holds exactly the listed files, each under the version of its name, newest first.",
   assume=["fetch_simple_api returns the links of the page (P02)", "IndexMap of indexmap, std sort"],
   bounded="the table against real pages (v_p01_*)"),
 "T01": dict(units=["T01"], harness=["world", "r02_e2e"],
   what="Brief::resolve, resolve_wheels, pinned, PubgrubState::metadata, get_or_fill, WheelResolveMetadata::from, on top of all of R02: given what is assumed of the solver, the pins meet every applicable requirement of the user, of every pin and of every extra in use (which exist); everything pinned is reached from the user's requirements in finitely many steps; no name is pinned twice; each pin lists exactly the known hashes of its version and carries the metadata of one of its files; markers, also those noted in the blueprint, have the value they have under the variables of the chosen interpreter, completed with the machine where it does not say it.",
   assume=["pubgrub::solver::resolve: every package it decides on was offered and asked about, what those asked for is decided on within the range, nothing else is decided on, and it asks only about packages that were asked for (the provider it is given is the proved one)", "the interpreter chosen is that of R05 and R06", "PackageDB::get_metadata returns the metadata of one of the files it is given", "versions that are equal have the same files and the same entry in the solver's tables", "as R02"],
   bounded="the solver itself, on small worlds (v_t01_e2e)"),
 "D01": dict(units=["D01", "D01m"], harness=["world", "d01_metadata"],
   what="Http::get_hashed, get_lazy, metadata_from_cache, put_metadata_in_cache, open_artifact, get_artifact and get_metadata: the metadata returned is that of the listed file returned with it (or of another listing of the same bytes), and from then on in the cache under that file's hash; the network is used only after every listed hash has been looked up and every listed file of the kind has been tried locally, a source archive is built only if no file of the kind is listed, and a file is opened as what its name says. get_vitals and the two BinaryArtifact::metadata: what is returned is the METADATA member of the one .dist-info directory (of pybi-info), parsed, in a supported format version, naming the package and version of the file name.",
   assume=["Artifact::new opens what it is given; parsing (contracts of M01), the zip reader", "http's get_hashed (C01, H01), LazyRemoteFile (H03) and the stores (C02)", "wheels built from source archives (B02)", "anyhow/eyre downcasts tell the two expected errors from others"],
   bounded="requests counted on the real code, with archives as the zip reader sees them (v_d01_metadata)"),
 "V01": dict(units=["V01"], harness=["world", "v01_env"],
  what="EnvForest::get_env, EnvForest::munge_unpacked_pybi, Env::env_vars, ArtifactInfo::require_hash, PybiCoreMetadata::path and Wheel::find_special_wheel_dir: an environment's interpreter is the unpacked archive of a file the index lists for exactly the pinned release, with a pinned hash, that runs on a platform asked for, told that it is managed and with user packages switched off; for each pin of the blueprint, in its order, there is one directory of scripts and one of modules, those of a wheel the index lists for that release with a pinned hash and compatible with that interpreter (or of a compatible wheel built from such a source archive), all laid out alike, whose one .dist-info holds the metadata the blueprint expects; the variables name exactly these.",
  assume=["unpacking (A03, A04), the store of unpacked trees (C02), the file chosen for a pin (R06), tags (R07), files by hash (D01), builds (B02)", "std::fs, std::env and PathBuf; that no hash is that of both an interpreter archive and a wheel; the trees in the store are not changed by others", "the regular expression for site.py matches what its text says"],
  bounded="environments made by the real code from a small index, some of them started (v_v01_env)"),
 "P02": dict(units=["P02"], harness=["p02_page"],
  what="Sink::create_element, try_parse_link, get_attr, parse_hash, percent_decode, the tag and attribute names, the other tree-building calls, parse_html and fetch_simple_api: what is returned is a fold over the elements of the page: each HTML <a> with an address that ends in a readable file name (percent-decoded) yields the files of that name with that address, resolved against the page's final address or the first <base> that has one, its hash, Python versions, metadata and yanking as its attributes say; the version is the last one stated, else 1.0; 404 is absence, every other failure an error, and only text/html is read.",
  assume=["html5ever calls create_element for the elements of the page in order", "url's join, fragment and segments; mime's parse; UTF-8 decoding", "file names are read as N02 proves, hashes as C01 does; http.request as H01 proves", "fewer than 2^63 nodes in a page"],
  bounded="html5ever and url themselves (v_p02_page)"),
}
for p, c in PROPS.items():
    c["level"] = "proof"
    c["explain"] = c["what"] + " Bounded only: " + c["bounded"] + "."
    c["note"] = "All obligations discharged by Verus for all inputs, given the assumed contracts on dependencies (evidence: trusted_base, assumptions). Bounded only: " + c["bounded"] + "."
NOT_APPLICABLE = {
}
