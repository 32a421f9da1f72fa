HOOK_COMMITS = []
PROPS = [
 dict(id="P01", title="Every stream kind is the same byte sequence with a cursor",
  statement="Reading, seeking, asking for the position or the end, and reading lines or typed values gives the same results for every kind of input stream over the same bytes, however the underlying storage splits its transfers; after the end of the data is reached the stream stays seekable. Output streams store exactly the bytes written at the positions written, and a write that the storage did not take completely is not reported as complete.",
  quantifier=dict(over=["inputs", "histories", "fault_sequences"], text="for every content, every sequence of stream operations on every stream kind, several streams interleaved, and every pattern of short transfers, interrupted calls and full storage"),
  why_tests_cant="The stream tests read a few values from small fixed buffers, one stream at a time, with transfers that always complete; they never reach the end and go on, never see a short transfer and never compare kinds.",
  anchors=dict(files=["src/Stream.cc", "include/zenkit/Stream.hh", "src/MmapPosix.cc"],
   mechanism=[dict(name="input back ends", where="src/Stream.cc ReadFile, ReadStream, ReadMemory, ReadVector, ReadMmap"), dict(name="output back ends", where="src/Stream.cc WriteFile, WriteStream, WriteStatic, WriteDynamic"), dict(name="typed and line access", where="src/Stream.cc Read::read_*, Write::write_*")],
   observe_at="Read and Write public API", hook_needed=False),
  level_note="Bounded contents (<= 20 kB) and histories (<= 64 operations); positions outside the data are only checked on memory-backed input."),
 dict(id="P02", title="The virtual file system behaves like a case-insensitive tree of files",
  statement="After any sequence of creating directories, mounting nodes, host directories, host files or disks with any overwrite behaviour, and removing entries, lookups (ignoring case) find exactly the entries, with the content, name and time, that a simple tree would hold, where a conflicting entry is replaced exactly when the chosen overwrite behaviour says so. Mounted data stays valid independent of its source buffer and of node copies, errors are reported for impossible targets, and a host mount that fails leaves the tree unchanged and no descriptors open.",
  quantifier=dict(over=["histories", "configurations", "fault_sequences"], text="for every history of operations, every clock value and time zone, and every failing host call"),
  why_tests_cant="The tests mount two fixed disks and a handful of nodes in one order, in one time zone, without failures; conflicts depend on the order of mounts, on times and on letter case in combination.",
  anchors=dict(files=["src/Vfs.cc", "include/zenkit/Vfs.hh", "src/MmapPosix.cc", "src/Misc.cc"],
   mechanism=[dict(name="merge and overwrite policy", where="src/Vfs.cc Vfs::mount, Vfs::mount_disk"), dict(name="lookup", where="src/Vfs.cc Vfs::resolve, Vfs::find, VfsNode::child"), dict(name="file data lifetime", where="src/Vfs.cc VfsFileDescriptor")],
   observe_at="Vfs and VfsNode public API", hook_needed=False),
  level_note="Trees of up to a few dozen nodes, up to 16 operations per history; names with trailing blanks are only used in lookups; empty host files are left out."),
 dict(id="P03", title="Saving a file system as a volume and mounting it gives the same tree",
  statement="A tree saved as a disk volume and mounted again has the same files with the same names, structure, content and volume time (two-second steps), for both game versions and through every kind of output and input stream; only directories without files are left out. If writing the volume stops at any point, or the storage runs out of space, mounting the result is refused or shows only files with their exact content.",
  quantifier=dict(over=["inputs", "crash_points", "configurations"], text="for every tree, time, time zone and stream kind, and every crash point (after any write, or inside one) while the volume is written"),
  why_tests_cant="One small fixture is saved and compared; no test interrupts a save, uses empty directories, an empty tree or another time zone.",
  anchors=dict(files=["src/Vfs.cc", "src/Stream.cc"],
   mechanism=[dict(name="volume writer", where="src/Vfs.cc Vfs::save_internal, count_nodes, vfs_unix_to_dos_time"), dict(name="volume reader", where="src/Vfs.cc Vfs::mount_disk, vfs_dos_to_unix_time")],
   observe_at="Vfs::save to a recording output, Vfs::mount_disk of what survived", hook_needed=False),
  level_note="Crash model: a prefix of the issued writes survives, the last one possibly torn; writes are not reordered."),
 dict(id="P04", title="Mounting a damaged volume is safe and never shows foreign data",
  statement="Mounting a volume with arbitrary damage (flipped bits, lost or blank sectors, truncation, forged catalog links, read errors) ends within a bounded number of steps with either success or the documented error, and everything visible afterwards can be read without touching memory outside the volume. Files that the damage does not touch stay intact, entries that were mounted before stay as they were, and the file system stays usable.",
  quantifier=dict(over=["inputs", "fault_sequences"], text="for every damaged volume image and every failing transfer while it is read"),
  why_tests_cant="Tests only mount intact volumes.",
  anchors=dict(files=["src/Vfs.cc", "src/Stream.cc", "src/MmapPosix.cc"],
   mechanism=[dict(name="catalog walk and bounds checks", where="src/Vfs.cc Vfs::mount_disk(std::byte const*, ...)")],
   observe_at="Vfs::mount_disk, VfsNode::open_read", hook_needed=False),
  level_note="Volumes up to ~20 kB; steps are counted as executed edges of ZenKit code (limit 3 million for one mount and full walk)."),
 dict(id="P05", title="Files of compressed volumes read like the plain files",
  statement="Opening a file stored compressed gives a stream with exactly the original bytes under any sequence of reads and seeks, for any block size, with several readers interleaved; a failed transfer or a damaged block ends the read early with only correct bytes before it and a later retry works, damaged stream headers are refused, and saving a tree compressed, mounting it and saving it again (compressed or plain) keeps the tree.",
  quantifier=dict(over=["inputs", "histories", "fault_sequences"], text="for every content, block size, access sequence, transient transfer error and damage to the compressed data"),
  why_tests_cant="Compressed volumes are off in the tested configuration; random access after a failed or damaged block depends on which block was cached before.",
  anchors=dict(files=["src/Stream.cc", "src/Vfs.cc"],
   mechanism=[dict(name="block cache", where="src/Stream.cc ReadZipped"), dict(name="compressed volumes", where="src/Vfs.cc vfs_write_zipped, Vfs::save_compressed, VfsNode::open_read, Vfs::mount_disk")],
   observe_at="Read::from_zipped, Vfs::save_compressed, Vfs::mount_disk", hook_needed=False),
  level_note="Built with _ZK_WITH_ZIPPED_VDF; the miniz dependency is not available offline and is replaced by zlib behind the same functions."),
 dict(id="P06", title="What is written to an archive is read back, in every format",
  statement="Values, nested objects and references written to an ASCII, BINARY or BIN_SAFE archive, over any kind of stream, are read back in order with the same types, names, versions and values (six decimals in ASCII), also when several archives are written interleaved while the clock moves; the header gives the format, save-game flag, user, date of the start and number of objects, and the file names every entry as written. Skipping an object (ahead or the current one) continues exactly behind it, probing for an object begin or end where there is none does not move the position, and reading a value as another type is reported in the self-describing formats.",
  quantifier=dict(over=["inputs", "histories", "configurations"], text="for every sequence of entries, every format, stream kind, clock history, time zone and user environment, and every interleaving of several archives"),
  why_tests_cant="The archive tests read fixed game files; writing is barely tested, never with unusual values, clock changes, offsets in a larger stream or several archives at once.",
  anchors=dict(files=["src/Archive.cc", "src/archive/ArchiveAscii.cc", "src/archive/ArchiveBinary.cc", "src/archive/ArchiveBinsafe.cc", "include/zenkit/Archive.hh"],
   mechanism=[dict(name="writers", where="WriteArchiveAscii, WriteArchiveBinary, WriteArchiveBinsafe"), dict(name="readers", where="ReadArchiveAscii, ReadArchiveBinary, ReadArchiveBinsafe, ReadArchive::skip_object, ReadArchive::from")],
   observe_at="ReadArchive and WriteArchive public API", hook_needed=False),
  level_note="Up to 60 items (rarely 4000 or 120000) and 3 archives per run; strings without line breaks or zero bytes outside BIN_SAFE; BINARY enums up to 255."),
dict(id="P07", title="Objects saved to an archive load as an equal object graph",
  statement="Virtual objects of every class (and visuals, AI, event managers, cutscene objects, materials, way nets, save metadata) written to an archive and read back have the same class and the same value in every field that the format stores, for both game versions, all archive formats, save-games and worlds, packed or not; objects shared or referring back to each other are again shared and refer back, and several objects in one archive do not influence each other. Saving what was loaded keeps it the same.",
  quantifier=dict(over=["inputs", "configurations", "histories"], text="for every object graph, game version, archive format, save-game flag and packing mode, over every stream kind"),
  why_tests_cant="Tests load one fixture per class and compare a few fields; saving is tested for almost none, and never with flags, counts and references in combination.",
  anchors=dict(files=["src/vobs/VirtualObject.cc", "src/vobs/Misc.cc", "src/vobs/Trigger.cc", "src/vobs/MovableObject.cc", "src/vobs/Camera.cc", "src/vobs/Light.cc", "src/vobs/Sound.cc", "src/vobs/Zone.cc", "src/world/WayNet.cc", "src/CutsceneLibrary.cc", "src/Material.cc", "src/Archive.cc"],
   mechanism=[dict(name="per-class load and save", where="load/save of every class derived from Object"), dict(name="object references", where="src/Archive.cc ReadArchive::read_object, WriteArchive::write_object")],
   observe_at="WriteArchive::write_object, ReadArchive::read_object", hook_needed=False),
  level_note="Graphs of up to about 15 objects. Six decimals in ASCII; strings without line breaks or zero bytes; event managers and physics state only in packed save-games; the alpha of animated light colors is not stored."),
dict(id="P08", title="Save-game slots hold what was saved and nothing else",
  statement="After any sequence of loading, changing and saving save-games to slots, loading a slot gives exactly the metadata, state, thumbnail and worlds of the last save to it; the other worlds and files of the slot the game was loaded from are carried along, whatever spelling of the path is used; other slots are never touched; loading replaces everything in memory, and a load that fails reports an error and leaves the object as it was.",
  quantifier=dict(over=["histories", "inputs", "configurations"], text="for every history of operations of several games on several slots, both game versions, every state and world"),
  why_tests_cant="Tests load two fixed save-games; nothing is saved, no slot is reused, and no load fails.",
  anchors=dict(files=["src/SaveGame.cc", "include/zenkit/SaveGame.hh", "src/World.cc", "src/Archive.cc"],
   mechanism=[dict(name="slot handling", where="src/SaveGame.cc SaveGame::save, SaveGame::load, SaveGame::load_world"), dict(name="state", where="src/SaveGame.cc SaveState::load, SaveState::save, SaveMetadata, CutsceneManager")],
   observe_at="SaveGame public API and the slot directories", hook_needed=False),
  level_note="2-3 slots, 1-2 SaveGame objects, up to 12 operations. Objects that are only weakly referenced inside a world are not kept by a loaded world and not compared; world names without dots.")
,
 dict(id="P09", title="A failed or interrupted save is reported, contained and can be repeated",
  statement="When any file-system call fails or transfers less than asked while a game is saved, the save either reports an error or the slot is complete; in every case, also when the process dies at any point of the save, all other slots and the other worlds of the slot stay byte for byte as they were, the data in memory and the slot the game belongs to are unchanged, and saving again without faults gives the complete slot. A load under faults reports an error and changes nothing, or gives the correct data.",
  quantifier=dict(over=["fault_sequences", "crash_points", "histories"], text="for every fault (error, full disk, short or torn transfer) at every file-system call and every crash point of a save, after every history"),
  why_tests_cant="No test saves a game, and failures of the file system cannot be produced by a unit test.",
  anchors=dict(files=["src/SaveGame.cc", "src/Stream.cc", "src/MmapPosix.cc"],
   mechanism=[dict(name="writing a slot", where="src/SaveGame.cc SaveGame::save, write_file"), dict(name="reading a slot", where="src/SaveGame.cc SaveGame::load")],
   observe_at="SaveGame::save and load, the slot directories", hook_needed=False),
  level_note="A failed save to a slot may leave this slot unusable (the format has no atomic replacement); removal and directory creation can fail, renames are not used. Crash model: no call after the crash point takes effect, the one in flight possibly in part.")
,
 dict(id="P18", title="A saved world loads as the same world",
  statement="A world (mesh with materials, light maps and polygons, BSP tree, tree of virtual objects, way net; in save-games NPCs, spawn points, sky and cutscene player) written to an archive loads with the same content, for both game versions and all archive formats, whether the game version is given or detected; the triangle list contains exactly the fans of the solid polygons that leafs refer to. Saving the loaded world again keeps it the same.",
  quantifier=dict(over=["inputs", "configurations"], text="for every world, game version, archive format and stream kind"),
  why_tests_cant="Tests load two fixed worlds and compare samples; no world is ever saved.",
  anchors=dict(files=["src/World.cc", "src/Mesh.cc", "src/world/BspTree.cc", "src/world/VobTree.cc", "src/Boxes.cc", "src/Date.cc", "src/Texture.cc"],
   mechanism=[dict(name="world sections", where="src/World.cc World::load, World::save"), dict(name="mesh and tree chunks", where="src/Mesh.cc, src/world/BspTree.cc")],
   observe_at="World::load, World::save", hook_needed=False),
  level_note="Worlds of up to about 15 objects, 10 polygons, 12 nodes; nodes in pre-order (as the format requires); light points for all leafs or none."),
dict(id="P11", title="Saved assets load as the same assets, and documented files load as documented",
  statement="Fonts, textures (loaded or built from mipmap levels), model hierarchies, multi-resolution meshes, soft-skin meshes, model meshes, models and meshes that are saved load with the same content and leave the stream at the end of their data, at any offset of any kind of stream, several in a row; animations and morph meshes stored as the format documentation says load with exactly this content; mipmap level 0 is always the largest, converting a texture to RGBA8 gives the pixels stored, exporting it as DDS gives a file that describes and contains the levels as stored, and the axis-aligned box of an oriented one encloses exactly its corners.",
  quantifier=dict(over=["inputs", "configurations"], text="for every asset, game version, stream kind, transfer size and offset"),
  why_tests_cant="Tests load one fixed file of each kind and compare samples of it; no model, mesh or multi-level texture is ever saved.",
  anchors=dict(files=["src/Font.cc", "src/Texture.cc", "src/ModelHierarchy.cc", "src/ModelMesh.cc", "src/Model.cc", "src/MultiResolutionMesh.cc", "src/SoftSkinMesh.cc", "src/MorphMesh.cc", "src/ModelAnimation.cc", "src/Mesh.cc", "src/addon/texcvt.cc", "src/Boxes.cc"],
   mechanism=[dict(name="chunked formats", where="include/zenkit/Stream.hh proto::read_chunked, proto::write_chunk"), dict(name="sections addressed by offset", where="src/MultiResolutionMesh.cc load_from_section, save_to_section")],
   observe_at="load and save of each asset class", hook_needed=False),
  level_note="Lists of usually up to 6, rarely 300 elements. One weight list per vertex and one box per node of a soft-skin mesh, unique attachment names (as the format requires). Pixel values of formats with few bits per channel (also DXT1, DXT3 and DXT5 by a reference decoder) are compared with a tolerance of 4 of 255; building such levels only for textures of one color, tolerance 17."),
dict(id="P10", title="Damaged assets and scripts are read safely",
  statement="Loading a font, texture, mesh, model, hierarchy, BSP tree, animation, morph mesh, model script (text or binary) or compiled script whose data is damaged in any way, whose stream fails or ends early, or for which memory runs out, never reads or writes out of bounds, never terminates the process, always ends, loses no memory, and either yields an object every accessor and saving of which is safe or throws a zenkit error or std::bad_alloc/std::length_error; intact data still loads afterwards.",
  quantifier=dict(over=["inputs", "fault_sequences"], text="for every asset or script, damage of its bytes, stream fault and failing allocation"),
  why_tests_cant="Tests load intact files only; every count, offset, length and index of every format can be damaged, and every transfer and allocation can fail.",
  anchors=dict(files=["src/Font.cc", "src/Texture.cc", "src/Model.cc", "src/ModelMesh.cc", "src/ModelHierarchy.cc", "src/ModelAnimation.cc", "src/ModelScript.cc", "src/ModelScriptDsl.cc", "src/MorphMesh.cc", "src/MultiResolutionMesh.cc", "src/SoftSkinMesh.cc", "src/Mesh.cc", "src/world/BspTree.cc", "src/DaedalusScript.cc", "src/Stream.cc"],
   mechanism=[dict(name="chunks bounded by their length", where="include/zenkit/Stream.hh proto::read_chunked"), dict(name="short reads give zeros", where="src/Stream.cc Read::read_*"), dict(name="ParserError", where="src/Error.cc")],
   observe_at="load of each asset class and of DaedalusScript, then its accessors and save", hook_needed=False),
  level_note="Up to 3 damages per file on files of usually less than 20 kB; blocks above 4 MiB fail with std::bad_alloc; allocations fail only while loading; number of executed edges bounded by 800 million per run."),
dict(id="P14", title="Scripts run on the Daedalus VM exactly as the instruction set defines",
  statement="A compiled script is loaded with exactly the symbols and instructions stored in it, and running any of its functions or instance initialisers - called from the host with any arguments or from scripts, externals and overrides in any nesting - gives the results, calls to the host, symbol values, member values, instances and kinds of errors a plain interpreter of the instruction set gives: arguments and results of every type, references, arrays and members, constants, local variables of recursive functions, function variables, access traps, default externals, the lenient exception handler and all execution flags. Registrations which do not match the script are rejected without effect, and after every call from the host, the stack is empty and program counter and current instance are as before; repeating a call does not use up memory.",
  quantifier=dict(over=["programs", "histories", "configurations"], text="for every well-formed program and every history of host operations (calls, initialisations, accesses) on it"),
  why_tests_cant="The tests run the functions of one small fixed script once each; nesting, recursion with saved locals, temporary strings, contexts and handlers interact, and their state carries over from call to call.",
  anchors=dict(files=["src/DaedalusVm.cc", "include/zenkit/DaedalusVm.hh", "src/DaedalusScript.cc", "include/zenkit/DaedalusScript.hh"],
   mechanism=[dict(name="instructions", where="src/DaedalusVm.cc DaedalusVm::exec"), dict(name="calls and local variables", where="src/DaedalusVm.cc push_call, pop_call, push_local_variables, pop_local_variables"), dict(name="temporary strings", where="src/DaedalusVm.cc push_string, get_free_string, mark_free_string"), dict(name="externals", where="include/zenkit/DaedalusVm.hh register_external, override_function"), dict(name="symbols", where="src/DaedalusScript.cc DaedalusScript::load, DaedalusSymbol::get_*, set_*")],
   observe_at="DaedalusVm and DaedalusSymbol public API", hook_needed=False),
  level_note="Programs of usually less than 3 kB; at most 20000 instructions per host call (longer ones end the run); shifts by amounts outside of 0 to 31 are undefined and left out."),
 dict(id="P15", title="Failing scripts and hosts leave a usable VM behind",
  statement="When a script fails (mis-typed, damaged or cut off code, missing values, exhausted stack or call depth, division by zero), an external throws a script error or any other exception, or memory runs out, the error reaches the exception handler and the host exactly as a plain interpreter defines for the handler's strategy (continue, return, fail); the failed call leaves no values on the stack, restores local variables, program counter, current instance and SELF, and later calls behave as if the failed call had never left anything behind. The process is never terminated, nothing is accessed out of bounds and no instance is lost.",
  quantifier=dict(over=["programs", "histories", "fault_sequences"], text="for every program, damage of its code, schedule of throwing externals and handler strategies, and failing allocation"),
  why_tests_cant="No test makes a script or an external fail; failures can hit every instruction at every nesting depth, and their damage shows only in later calls.",
  anchors=dict(files=["src/DaedalusVm.cc", "include/zenkit/DaedalusVm.hh", "src/DaedalusScript.cc"],
   mechanism=[dict(name="restoring the state", where="src/DaedalusVm.cc DaedalusVm::guarded_call, unwind_calls, StackGuard"), dict(name="exception handler", where="src/DaedalusVm.cc DaedalusVm::exec, lenient_vm_exception_handler"), dict(name="limits", where="src/DaedalusVm.cc DaedalusVm::push_*, push_call")],
   observe_at="DaedalusVm public API", hook_needed=False),
  level_note="Where damaged code takes more values from the stack than its function was given, the outcome is not defined and only safety is checked (in a separate process, bounded steps); after failing allocations only safety, usability and instance lifetimes are checked."),
dict(id="P12", title="Threads working on objects of their own do not influence each other",
  statement="When several threads use the library at the same time, each on its own streams, archives, file systems, save-games, assets, worlds and virtual machines, every thread gets exactly the results, errors, written bytes and log messages it gets when it runs alone, under every interleaving; nothing is accessed out of bounds or after it was released, and no thread waits forever.",
  quantifier=dict(over=["schedules", "histories", "fault_sequences"], text="for every interleaving of two or three threads (control may change at every branch, load and store), every workload, per-thread clock and injected damage"),
  why_tests_cant="All tests are single-threaded; state that is hidden in static variables or in C library functions shows only when another thread runs between two particular instructions.",
  anchors=dict(files=["src/Logger.cc", "src/archive/ArchiveAscii.cc", "src/archive/ArchiveBinary.cc", "src/archive/ArchiveBinsafe.cc", "src/Vfs.cc", "src/Internal.hh", "src/DaedalusVm.cc", "src/vobs/VirtualObject.cc"],
   mechanism=[dict(name="log messages", where="src/Logger.cc Logger::logv"), dict(name="dates", where="src/Internal.hh zk_localtime, src/Vfs.cc vfs_unix_to_dos_time, archive writers"), dict(name="object headers", where="src/archive/ArchiveBinsafe.cc ReadArchiveBinsafe::read_object_begin")],
   observe_at="public API used from several threads", hook_needed=False),
  level_note="One thread runs at a time (sequentially consistent interleavings; no weak memory). Settings of the process (logger, packed saving, environment, time zone) stay the same while threads run."),
 dict(id="P13", title="One object can be read by several threads at the same time",
  statement="While several threads look up, open and read files of one file system, copy its nodes, mount the copies elsewhere and save it, or save, convert and search one object graph, asset, world or cutscene library, every thread gets what it would get alone under every interleaving. The content of a file is kept until the last node, copy or file system referring to it is gone, and released then exactly once.",
  quantifier=dict(over=["schedules", "histories"], text="for every interleaving of two or three threads and every sequence of non-modifying operations on every shared object"),
  why_tests_cant="All tests are single-threaded; a lost update of a reference count or a hidden cache needs another thread between two particular instructions.",
  anchors=dict(files=["src/Vfs.cc", "include/zenkit/Vfs.hh", "src/Stream.cc", "src/Texture.cc", "src/CutsceneLibrary.cc", "src/Archive.cc"],
   mechanism=[dict(name="file data lifetime", where="src/Vfs.cc VfsFileDescriptor"), dict(name="lookup", where="src/Vfs.cc Vfs::resolve, Vfs::find, VfsNode::open_read"), dict(name="saving", where="save methods of objects and assets")],
   observe_at="non-modifying public API used from several threads", hook_needed=False),
  level_note="One thread runs at a time (sequentially consistent interleavings). Scripts are left out: decoding an instruction moves the cursor of the script's stream."),
dict(id="P19", title="Damaged archives and save-games are read safely",
  statement="Reading objects, worlds, save-game states or whole save-game slots from archives of any format (ASCII, BINARY, BIN_SAFE) whose data is damaged in any way - including replaced classes, references to arbitrary objects, counts and sizes -, whose stream fails or ends early, or for which memory runs out, never reads or writes out of bounds, never terminates the process, always ends, and either yields an object graph in which every object is of the class its place calls for and which can be read and saved safely, or throws a zenkit error or std::bad_alloc/std::length_error; intact archives still load afterwards and a damaged slot can be saved over.",
  quantifier=dict(over=["inputs", "fault_sequences"], text="for every archive, damage of its bytes or structure, stream fault and failing allocation"),
  why_tests_cant="Tests load intact archives only; object headers, references, counts and sizes steer the readers and can be damaged anywhere, in three formats.",
  anchors=dict(files=["src/Archive.cc", "src/archive/ArchiveAscii.cc", "src/archive/ArchiveBinary.cc", "src/archive/ArchiveBinsafe.cc", "src/World.cc", "src/world/VobTree.cc", "src/world/WayNet.cc", "src/vobs/VirtualObject.cc", "src/vobs/Misc.cc", "src/SaveGame.cc", "src/CutsceneLibrary.cc"],
   mechanism=[dict(name="object headers and references", where="src/Archive.cc ReadArchive::read_object, include/zenkit/Archive.hh ReadArchive::read_object<T>"), dict(name="skipping", where="src/Archive.cc ReadArchive::skip_object, src/archive/ArchiveBinary.cc ReadArchiveBinary::skip_object"), dict(name="trees", where="src/world/VobTree.cc parse_vob_tree")],
   observe_at="ReadArchive, World::load, SaveGame::load, load_world", hook_needed=False),
  level_note="Damaged references may make objects own each other; such cycles are not walked through nor saved, and memory held by them is not counted as lost. Failing allocations are not injected while std::filesystem lists a directory (libstdc++ terminates)."),
dict(id="P20", title="Model scripts load exactly the statements they contain",
  statement="A model script, as text (keywords in any case, any white space, comments, parentheses or none, any line ends, optional braces around events, strings lacking their end) or in binary form (with unknown chunks and additional data in chunks), loads with exactly its skeleton, meshes, animations with all of their events, aliases, blends, combinations, disabled animations and tags, in order and with every value stored, from any kind of stream however it splits its transfers and wherever in it the script begins. A script whose file was cut off at any point is either refused or loads with all statements in front of the cut and nothing else except for the one that was cut.",
  quantifier=dict(over=["inputs", "crash_points"], text="for every model script, spelling of it, stream and point of interruption"),
  why_tests_cant="The tests load two fixed scripts; optional parts of the grammar interact with the statement that follows, in every combination.",
  anchors=dict(files=["src/ModelScript.cc", "src/ModelScriptDsl.cc", "src/ModelScriptDsl.hh", "include/zenkit/ModelScript.hh"],
   mechanism=[dict(name="tokens", where="src/ModelScriptDsl.cc MdsTokenizer::next"), dict(name="statements", where="src/ModelScriptDsl.cc MdsParser::parse_*"), dict(name="binary chunks", where="src/ModelScript.cc parse_binary_script")],
   observe_at="ModelScript::load", hook_needed=False),
  level_note="Slots of event tags that the text form ignores (e.g. DEF_REMOVE_ITEM) are not compared; events without braces are only generated in front of another statement, since their closing brace is ambiguous otherwise."),
dict(id="P21", title="The bundled script classes give every member of the games' classes",
  statement="After registering the bundled classes with a script of either game (the groups of members that one game lacks present or not, with extra members and unrelated symbols between), every member that the script declares refers to its own field of the C++ class: what the initialiser, a script function or the host stores in any element of any member of any instance is what both sides read there until it is stored again, and no other field of any instance changes. A script whose class lacks a required member, or declares a member with another type or more elements than the field has, is refused, and the choices of a dialogue are exactly those added and not removed.",
  quantifier=dict(over=["programs", "histories"], text="for every script that declares the classes, every member and element, and every history of stores, loads and instances"),
  why_tests_cant="The tests read about twenty members of three instances of one script, which the initialiser alone has set; about 700 members in two dialects of 19 classes are bound by hand-written lines.",
  anchors=dict(files=["src/addon/daedalus.cc", "include/zenkit/addon/daedalus.hh", "src/DaedalusScript.cc", "include/zenkit/DaedalusScript.hh"],
   mechanism=[dict(name="bindings", where="src/addon/daedalus.cc register_all_script_classes"), dict(name="checks of a binding", where="include/zenkit/DaedalusScript.hh register_member"), dict(name="access through the binding", where="include/zenkit/DaedalusScript.hh get_member_ptr")],
   observe_at="register_all_script_classes, init_instance, the fields of the instances and DaedalusSymbol::get_*, set_*", hook_needed=False),
  level_note="Against a table of the members (names of the games' scripts and fields of the classes) kept in sim/script_classes.inc."),
dict(id="P22", title="Log messages are delivered once, complete and in order",
  statement="Every message logged at or below the chosen level (through either entry point; only what exceeds 4000 characters may be cut off) reaches the callback exactly once with its level, name and formatted text, in the order of each thread, and none reaches it otherwise, also when the callback itself logs and when several threads log at the same time. The default logger writes each of them as one unbroken line with the UTC time, level, name and text to the standard error output and nothing else is written there.",
  quantifier=dict(over=["schedules", "histories"], text="for every history of logger settings and messages and every interleaving of the threads that log"),
  why_tests_cant="No test looks at a log message; a message that mixes with that of another thread needs a switch between two particular instructions.",
  anchors=dict(files=["src/Logger.cc", "include/zenkit/Logger.hh", "src/Internal.hh"],
   mechanism=[dict(name="formatting", where="src/Logger.cc Logger::logv"), dict(name="default logger", where="src/Logger.cc zk_internal_logger_default")],
   observe_at="Logger::log, Logger::logv, the callback and the standard error output", hook_needed=False),
  level_note="The logger is not reconfigured while threads log (it is a setting of the process). Up to three threads with seven messages each, three configurations per run."),
]
NA = []
