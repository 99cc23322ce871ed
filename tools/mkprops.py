"""Regenerates /verif/properties.jsonl (kept in step with harness/props/)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if observe:
        d["anchors"]["observe_at"] = observe
    P.append(d)

D = "dustmaker/"
p("C01", "Writing a level and reading it back loses nothing",
  "For every level whose contents the file format can represent, writing it and reading the bytes back yields a level with exactly the same tiles (shape, flags, sprite and every attribute of all four edges), props, entities, backdrop tiles and props, variables and thumbnail, under the same ids and positions. The only tolerated loss is the format's own precision: entity positions in 1/128 pixel steps, prop positions in whole pixels, prop scales in the format's steps, float variables in 2^-31 steps, and filth stored for the collision layer only.",
  ["inputs"], "all representable levels: any tiles on layers 0-20 in any region, any props and entities with any variables, any backdrop, any thumbnail",
  "the suite round-trips one shipped level and a handful of hand-made ones; field packing errors appear only for particular combinations of side, sign, count, bit alignment, region and value",
  [D+"dfwriter.py", D+"dfreader.py", D+"tile.py", D+"prop.py", D+"entity.py"],
  [("level writer", D+"dfwriter.py:write_level_ex"), ("level reader", D+"dfreader.py:read_level"), ("tile packing", D+"tile.py:_pack_tile_data/_pack_dust_data")],
  ["bytes from write_level", "Level from read_level"])
p("C02", "Written level files follow the game's binary layout",
  "Every level file written decodes, under an independent description of the Dustforce format, to exactly the level's contents: each tile, prop and entity lies in the 256-tile region and 16-tile segment that contains its position (backdrop contents in the region containing them), regions are ordered by unsigned coordinates, and the region directory, all size, count, version and flag fields and the file length are consistent with the data. The next-id recorded in the header is greater than every id in use and never lower than the one the level would hand out next.",
  ["inputs"], "all representable levels, including negative coordinates, positions just either side of a tile, segment or region border, any number of regions and any bit alignment of the variable block",
  "a reader and writer that share a mistake round-trip happily; only the game notices, so the suite's round-trip tests cannot see it",
  [D+"dfwriter.py", D+"tile.py"],
  [("region map", D+"dfwriter.py:_compute_region_map"), ("segment writer", D+"dfwriter.py:_write_segment"), ("region directory", D+"dfwriter.py:_write_regions_from_level")],
  ["bytes from write_level"])
p("C03", "Every legal encoding of a level is read correctly",
  "Any level file that is legal under the format is read to the contents it encodes, whatever its level version (43 or 44), segment version (old segments lack filth counters, pre-7 segments store prop positions as fixed-point numbers unless the level is of the dustmod type, extended entity names exist from segment version 8), segment order, region order, empty sections or unused padding. Records with a negative id are placeholders without a body and are skipped, a repeated prop or entity id keeps the last record, filth for a missing tile is ignored, and unsupported level versions (42 and older) are rejected with the documented parse error.",
  ["inputs"], "all legal encodings produced by an independent encoder over format versions, section orders and optional parts",
  "the repository ships one game-made level; other versions and legal encodings that the library's own writer never produces are untested",
  [D+"dfreader.py"],
  [("segment reader", D+"dfreader.py:read_segment"), ("region reader", D+"dfreader.py:read_region"), ("header reader", D+"dfreader.py:read_level_ex")],
  ["Level from read_level"])
p("C04", "Writing is deterministic and does not disturb the level",
  "Writing the same level twice produces identical bytes, leaves every tile, prop, entity, variable and the thumbnail unchanged, and does not depend on what the output stream previously contained or on whether the level is written to memory, a file or at a later offset. Reading those bytes and writing the result again reproduces them exactly, provided the format could represent the level without loss. A write that fails in the stream reports the error and leaves the level as it was; another process with other hash values writes the same bytes.",
  ["inputs", "histories"], "all representable levels, written repeatedly, over dirty streams, at non-zero offsets, and re-written after being read back",
  "needs arbitrary levels combined with repeated writes and arbitrary prior stream contents",
  [D+"dfwriter.py", D+"bitio.py"],
  [("level writer", D+"dfwriter.py:write_level_ex"), ("region directory", D+"dfwriter.py:_write_regions_from_level")],
  ["bytes from write_level", "level state after writing"])
p("C05", "Metadata-only editing keeps all region data",
  "Reading a level's metadata together with its raw region data, changing any variables and the thumbnail, and writing it back gives a file whose tiles, props, entities and backdrop are exactly those of the original and whose variables and thumbnail are exactly the new ones. The raw region data is copied byte for byte, the region offsets (including the end offset) locate each region within it, the next-id in the header never decreases, and a metadata-only read returns the same variables and thumbnail as a full read.",
  ["inputs"], "all levels and all replacement variables and thumbnails, region data passed whole or in any chunking, regions read by hand or all at once",
  "offset bugs depend on the sizes and bit alignment of both the old and new variable block and on the number of regions",
  [D+"dfreader.py", D+"dfwriter.py"],
  [("metadata reader", D+"dfreader.py:read_level_ex"), ("raw region writer", D+"dfwriter.py:_write_regions_raw")],
  ["bytes from write_level_ex", "offsets from read_level_ex"])
p("C06", "Variables survive serialization at any nesting and size",
  "Any variable the format can represent (booleans, signed and unsigned 32-bit ints, floats, byte strings, vectors, structs and arrays nested to any depth) is read back equal to what was written, with floats exact to 2^-31 rounded towards minus infinity, strings of any length inside structs and arrays (including exact multiples of the 65535-byte chunk size), and struct keys in their original order. The encoding is the format's own, as judged by an independent codec, at any bit offset and inside any kind of variable file.",
  ["inputs"], "all variable trees, any starting bit alignment, any string lengths around chunk boundaries, any file header",
  "chunk boundaries, nesting and alignment interact; tests sample a few flat values",
  [D+"dfwriter.py", D+"dfreader.py", D+"variable.py"],
  [("variable writer", D+"dfwriter.py:write_variable"), ("variable reader", D+"dfreader.py:read_variable"), ("var files", D+"dfwriter.py:write_var_file")],
  ["bytes written", "variables read"])
p("C07", "Invalid values and misuse are rejected, not silently accepted",
  "Values the library documents as invalid are refused with the documented error and never written or stored as something else: 6-bit strings that are too long or contain other characters, standalone strings over 65535 bytes, arrays over 65535 elements counting string continuations, variables whose value does not match their type or range, unknown replay versions, version-1 replays without exactly one player, region data of the wrong total size, unaligned writer seeks, malformed matrices, and wrong file headers. The neighbouring valid values are accepted.",
  ["inputs"], "all invalid values just beyond and far beyond each documented limit, and the valid values next to them",
  "limits must hold at every boundary, in every nesting and in both directions",
  [D+"dfwriter.py", D+"variable.py", D+"bitio.py", D+"transform.py", D+"dfreader.py"],
  [("6-bit strings", D+"dfwriter.py:write_6bit_str"), ("type checks", D+"variable.py:assert_types"), ("seek guard", D+"bitio.py:bit_seek"), ("header check", D+"dfreader.py:read_expect")],
  ["exceptions raised"])
p("C08", "Bit streams behave as a sequence of bits",
  "For every sequence of reads (signed or unsigned, any width), byte reads, alignments, seeks and skips, a bit reader returns exactly the bits at its position in least-significant-first order and its reported position and alignment are always right. For every sequence of writes (negative values in two's complement), byte writes, alignments, flushes and seeks, a bit writer leaves exactly those bits in the stream with zero padding, and reading past the end raises an error instead of inventing bits. Readers and writers in use at the same time do not influence each other.",
  ["histories", "inputs"], "all operation sequences on readers and writers over arbitrary data, including starting at a non-zero stream offset",
  "buffered-bit state bugs need a particular sequence of widths, seeks and alignments",
  [D+"bitio.py"],
  [("bit reader", D+"bitio.py:BitIOReader"), ("bit writer", D+"bitio.py:BitIOWriter")],
  ["returned ints and bytes", "bit_tell and aligned", "underlying stream contents"])
p("C09", "Fixed-point numbers and 6-bit strings encode exactly",
  "A fixed-point number written with any integer and fraction width is encoded as sign, integer magnitude and fraction exactly as the format defines and reads back as the value rounded down to the fraction's resolution, negative numbers included. Every 6-bit string of up to 63 allowed characters is encoded with the format's alphabet and reads back unchanged, at any bit alignment.",
  ["inputs"], "all widths, all values within range including negatives and exact multiples of the resolution, all 6-bit strings, any bit alignment",
  "sign and rounding errors show only on particular negative or boundary values",
  [D+"dfwriter.py", D+"dfreader.py"],
  [("float codec", D+"dfwriter.py:write_float"), ("6-bit strings", D+"dfwriter.py:write_6bit_str")],
  ["bits written", "values read"])
p("C10", "Replays survive being written and read back",
  "For every replay of versions 1, 3 and 4, writing and reading back preserves username, level, frame count, every player's character, the value of every input on every frame (trailing neutral frames may be dropped, inputs the version does not carry are absent), and every entity's frames to the stored resolution, in order and under the same ids. This holds with or without the username header and whether or not the length is given to the reader.",
  ["inputs"], "all replays: any number of players, any run lengths of any input values, any entity data",
  "run-length coding errors appear only at particular run lengths (254-257, 510 and so on), values and stream ends",
  [D+"dfwriter.py", D+"dfreader.py", D+"replay.py"],
  [("replay writer", D+"dfwriter.py:write_replay"), ("replay reader", D+"dfreader.py:read_replay"), ("intent tables", D+"replay.py:_INTENT_META")],
  ["Replay from read_replay"])
p("C11", "Replay files follow the game's binary layout in both directions",
  "Every replay written decodes to the same data under an independent description of the replay format, with correct version digit, player count, uncompressed size, section lengths and run-length codes, and every legal replay file of versions 1, 3 and 4 (with or without username header, any legal run splitting, padded sections, the frames of an entity in one or several records) is read to the data it encodes.",
  ["inputs"], "all replays written by the library and all legal replay encodings made by an independent encoder",
  "the library's reader tolerates its writer's mistakes; only an independent codec can tell",
  [D+"dfwriter.py", D+"dfreader.py", D+"replay.py"],
  [("replay writer", D+"dfwriter.py:write_replay"), ("replay reader", D+"dfreader.py:read_replay")],
  ["bytes from write_replay", "Replay from read_replay"])
p("C12", "Damaged input never hangs, and truncation is always noticed",
  "Reading any proper prefix of a level, variable file or replay raises an error rather than returning made-up content, and a file whose header or magic does not match is rejected with the documented parse error, a LevelException. Reading arbitrarily corrupted bytes always finishes, with a result or an error.",
  ["inputs", "fault_sequences"], "all truncation points of all files, and corruptions of any header, count, size or payload field inside or outside the compressed data",
  "tests read only intact files",
  [D+"bitio.py", D+"dfreader.py"],
  [("end of data", D+"bitio.py:read"), ("replay inflate loop", D+"dfreader.py:read_replay"), ("segment skipping", D+"dfreader.py:read_segment")],
  ["exceptions raised by read_level, read_var_file, read_replay"])
p("C13", "Rotating or flipping a tile moves its solid area and edges",
  "Applying any rotation by quarter turns and/or flip to a tile of any shape yields the tile whose solid polygon is exactly the transformed polygon, whose every existing edge carries the data (solidity, visibility, caps, angles, filth) of the edge that was moved there with direction-dependent data reversed and angles negated on flips, and whose sprite and flags are unchanged. Edges the shape does not have end up blank.",
  ["inputs"], "all 21 shapes, all 8 symmetries (as any matrix with that linear part, scaled or translated), any edge data",
  "the suite checks inverses and cycles, which cannot see a mapping that is wrong but consistent, and does not vary edge data per side",
  [D+"tile.py", D+"transform.py"],
  [("tile transform", D+"tile.py:Tile.transform"), ("side tables", D+"tile.py:SHAPE_ORDERED_SIDES/SHAPE_VERTEXES")],
  ["tile after transform"])
p("C14", "Transforming a level moves everything together",
  "Rotating, flipping and translating a level moves every prop, entity and player start by the same affine map in pixels and every tile (and 16x larger backdrop tile) so that it covers the image of the area it covered, with translations rounded to the nearest whole tile; nothing is lost, duplicated or changes layer or id. Quarter rotations turn prop and entity angles clockwise, flips toggle exactly one flip flag and mirror the angle, and position data inside entities (checkpoint areas, kill box size, controller nodes, key positions) and camera and enemy scale follow the map.",
  ["inputs"], "all levels and all compositions of quarter rotations, flips and translations by any number of pixels",
  "tests transform one level and compare after a full cycle, so errors that cancel over the cycle or affect only some kinds of content pass",
  [D+"level.py", D+"entity.py", D+"prop.py", D+"transform.py"],
  [("level transform", D+"level.py:Level.transform"), ("entity transforms", D+"entity.py:transform"), ("prop transform", D+"prop.py:Prop.transform")],
  ["level after transform"])
p("C15", "Level transformations compose and invert",
  "Applying two transformations (quarter rotations, flips, whole-tile translations) one after another gives the same level as applying their matrix product once, and applying a transformation followed by its inverse restores the level exactly, backdrop and entity data included. The convenience methods for rotating, flipping and translating equal the corresponding matrix, for any number of turns including negative.",
  ["inputs", "histories"], "all levels and all sequences of transformations",
  "the group laws must hold for every pair of symmetries and every kind of content",
  [D+"level.py", D+"tile.py", D+"transform.py"],
  [("level transform", D+"level.py:Level.transform"), ("matrix product", D+"transform.py:__mul__")],
  ["level after transform sequences"])
p("C16", "Upscaling enlarges the level exactly",
  "Upscaling by any factor replaces every tile (backdrop tiles included) by tiles that exactly cover its enlarged area with the same sprite and flags, puts the original edge data on precisely the boundary edges of the enlarged shape with caps and angles kept only at its true end points, and leaves interior edges blank. Positions of props, entities and player starts are multiplied by the factor, combined correctly with any extra rotation, flip or translation, and factor 1 changes nothing.",
  ["inputs"], "all shapes, factors and edge data, whole levels, any additional transformation",
  "the suite checks tile counts for some shapes, not the geometry or the edge data of each piece",
  [D+"tile.py", D+"level.py"],
  [("tile upscale", D+"tile.py:Tile.upscale"), ("level upscale", D+"level.py:Level.upscale")],
  ["tiles after upscale"])
p("C17", "Edge visibility follows the documented rules for every layout",
  "After automatic edge calculation, on every layout an edge is non-existent, solid and visible, non-solid and hidden, or non-solid and visible exactly as the documented rules say from the shapes and sprites of the tile and its neighbour on the same layer, the decision callback being asked exactly for touching flush edges of differing sprites. Only solidity and visibility of existing edges change; edges the shape lacks are blanked; the result does not depend on tile order and repeating the calculation changes nothing.",
  ["inputs"], "all tile layouts over all shapes, sprites and layers, with any callback or none",
  "the rules are relations between neighbouring shapes on particular sides; tests cover a few neighbourhoods",
  [D+"level.py", D+"tile.py"],
  [("edge visibility", D+"level.py:calculate_edge_visibility")],
  ["edge data after the calculation"])
p("C18", "Edge caps and join angles follow the documented rules",
  "After edge visibility and then edge caps are calculated on any layout (or edge caps alone, on edges made visible in any other way), each end of every visible edge has the cap flag, join angle, filth cap and filth angle that the documented joining rules give (same sprite, same side, end point meeting start point, most outward candidate, half the turn rounded down, clockwise positive), and hidden edges have all of it cleared. No other tile data changes.",
  ["inputs"], "all tile layouts over all shapes, sprites, filth and layers",
  "joins depend on up to three neighbouring tiles, their shapes and their edge data in both directions",
  [D+"level.py", D+"tile.py"],
  [("edge caps", D+"level.py:calculate_edge_caps")],
  ["edge data after the calculation"])
p("C19", "Automatically assigned ids never collide",
  "In every history of adding props and entities (to the level or its backdrop, with automatic or explicit ids), deleting, renumbering, merging, recalculating the maximum id, writing and re-reading, an automatically assigned id is never one in use by any prop or entity of the level or backdrop, and adding a prop or entity under an id already used by a prop or entity, respectively, of the same level or backdrop raises the documented error and leaves its contents unchanged. The reported maximum id is at least 100 and at least every id in use, equals exactly that after a reset, and without a reset is never below the last id handed out.",
  ["histories"], "all histories of id-affecting operations",
  "collisions require particular orders of operations across level, backdrop, merge and reload",
  [D+"level.py", D+"dfreader.py", D+"dfwriter.py"],
  [("id allocator", D+"level.py:_gen_id/_note_id"), ("max id", D+"level.py:calculate_max_id"), ("renumbering", D+"level.py:remap_ids")],
  ["ids returned", "level contents", "header of written file"])
p("C20", "Renumbering keeps references between entities intact",
  "When a level is renumbered or merged, every reference one entity holds to another (camera nodes, flag enemies, keys, AI puppets, score book lists) still designates the same entity as before, references to nothing become 0, and no prop, entity, position or other variable changes. All new ids are distinct, start at the requested minimum, and cover props, entities and the backdrop.",
  ["inputs", "histories"], "all levels with any reference graph (self references, repeats, dangling ids) and any starting id, including ranges overlapping the old ids",
  "overlapping old and new ranges and unusual reference graphs are needed to expose sequential-rename errors",
  [D+"level.py", D+"entity.py"],
  [("renumbering", D+"level.py:remap_ids"), ("entity hooks", D+"entity.py:remap_ids")],
  ["entity variables after remap"])
p("C21", "Merging combines both levels and keeps them independent",
  "Merging adds every tile, prop and entity of the other level (backdrop included) to this one, the other level winning where tiles overlap, without losing or altering anything else, and with renumbering enabled no prop or entity of either level is lost. The merged-in content keeps its ids and is an independent copy: later changes to either level never show in the other, and the other level's contents are not modified by the merge.",
  ["inputs", "histories"], "all pairs of levels, with and without renumbering, followed by arbitrary edits of either",
  "aliasing shows only when a later edit follows the merge",
  [D+"level.py"],
  [("merge", D+"level.py:Level.merge")],
  ["both levels after merge and edits"])
p("C22", "Variables convert to JSON and back without loss",
  "Converting any representable variable tree to its JSON schema and value, through actual JSON text, and back gives an equal variable of the same types, for all byte values in strings, empty and nested arrays, and arrays of structs with differing keys. Trees whose elements cannot share one schema are refused with an error, never converted wrongly.",
  ["inputs"], "all variable trees of any nesting",
  "schema merging depends on combinations of element shapes",
  [D+"cmd/variables.py"],
  [("to JSON", D+"cmd/variables.py:variables_to_json"), ("from JSON", D+"cmd/variables.py:json_to_variables"), ("schema merge", D+"cmd/variables.py:merge_schema")],
  ["JSON text", "variables"])
p("C23", "Command line edits change only what was asked",
  "The variables and thumbnail commands change exactly the requested data of the file: printing variables and applying them unedited leaves the file equivalent, updating variables or the thumbnail keeps all tiles, props, entities and everything else, extraction writes exactly the stored thumbnail and refuses to overwrite without force. A command that fails, for whatever input or injected write error before output starts, leaves the target file as it was.",
  ["inputs", "fault_sequences", "configurations"], "all levels and variable files (including levels without regions), all edits, all option combinations, invalid inputs",
  "file-destroying failures need particular invalid inputs or region-less levels",
  [D+"cmd/variables.py", D+"cmd/thumbnail.py", D+"cmd/main.py"],
  [("variables command", D+"cmd/variables.py:update_variables"), ("thumbnail command", D+"cmd/thumbnail.py:main")],
  ["files on disk", "exit codes", "stdout"])
p("C24", "The transform command does what its help says",
  "For every combination of options the transform command produces the level obtained by upscaling, rotating, flipping and then shifting by the given number of pixels, in that order, leaving the input file untouched unless it is also the output. Upscaling turns levels of the normal type into the dustmod type; otherwise variables, ids and contents are those of the input.",
  ["inputs", "configurations"], "all levels and all option combinations, including negative turns and in-place use",
  "option interactions (upscale with shift, both flips with rotation) are not covered by tests at all",
  [D+"cmd/transform.py", D+"level.py"],
  [("transform command", D+"cmd/transform.py:main")],
  ["output file"])
p("C25", "Save conversion keeps books, scores and key counts",
  "Converting a vanilla save keeps the known book entries unchanged, produces one score record per recognised level with the same combo, time, thoroughness, best time and overall values, sorted by file name and with the key type of its level group, and counts used keys per type from those scores plus the recorded red keys. Unknown levels and unrelated entries are dropped, and the converted save file decodes to exactly that.",
  ["inputs"], "all saves with any subset of known and unknown levels, scores and books",
  "the command has no tests",
  [D+"cmd/save_convert.py"],
  [("migration", D+"cmd/save_convert.py:migrate_stats"), ("level table", D+"cmd/save_convert.py:LEVEL_KEYS")],
  ["stats1 file"])
p("C26", "Typed accessors and entity classes mirror the raw variables",
  "Every documented accessor of levels and entities reads the documented default when its variable is absent, always agrees with the raw variable of its documented name and type after any sequence of sets, deletes, array edits and raw changes, raises an error instead of misreading a variable of another type, and never affects other variables or other objects. An entity read from a file has the class registered for its type name (extended names and classes added by the user included), a member of its documented family (enemies, triggers, characters, hittables) and keeps its type name when written. The fog trigger helpers give the documented index of every layer and sublayer, refuse others, and normalize the fog arrays to the documented lengths keeping existing values.",
  ["histories", "inputs"], "all accessors, all values of their type, all sequences of accessor and raw operations on several objects, all entity type names",
  "there are over a hundred accessors and shared mutable defaults appear only after particular sequences",
  [D+"entity.py", D+"level.py"],
  [("accessor binding", D+"entity.py:bind_prop/bind_prop_arr"), ("class registry", D+"entity.py:_from_raw"), ("player starts", D+"level.py:PlayerPosition")],
  ["attribute values", "variables dictionaries"])
p("C27", "Array variables behave as typed lists",
  "An array variable behaves exactly as a list of its unboxed element values under every sequence of mutable-sequence operations (index, slice-free get, set and delete, insert, append, extend, pop, remove, reverse, iteration, membership, length), always keeps elements of its declared type, and rejects values of another type without changing. It is independent of the list it was made from and of other arrays, and what is serialized is always the current contents.",
  ["histories"], "all operation sequences over all element types including nested arrays and structs",
  "needs sequences of operations with negative and out-of-range indexes over each element type",
  [D+"variable.py"],
  [("array variable", D+"variable.py:VariableArray")],
  ["list contents", "exceptions"])
p("C28", "Equality and hashing follow values",
  "Two tiles or two variables compare equal exactly when all their documented attributes (for variables, type and value) are equal, whatever object identity or construction path, and differ when any single attribute differs. Equality is symmetric, unaffected by comparison with other types, and equal objects have equal hashes and work as set members and dictionary keys.",
  ["inputs"], "all pairs of tiles and all pairs of variables, equal or differing in exactly one attribute at any depth",
  "one forgotten attribute is visible only for pairs differing in just that attribute",
  [D+"tile.py", D+"variable.py"],
  [("tile equality", D+"tile.py:__eq__/__hash__"), ("variable equality", D+"variable.py:__eq__/__hash__")],
  ["== and hash results"])
p("C29", "Transformation matrices obey affine algebra",
  "For all matrices and points, sampling a product equals sampling the right then the left factor, translating equals multiplying by a translation on the left, multiplying by a number scales the whole map, determinant, flip and scale agree with the linear part, and matrices are immutable values. The named constants are the identity, the two flips, and the clockwise quarter turns.",
  ["inputs"], "all 3x3 affine matrices with integer or float entries, all points",
  "tests use a few hand-picked matrices without offsets",
  [D+"transform.py"],
  [("matrix type", D+"transform.py:TxMatrix")],
  ["matrix entries", "sampled points"])
p("C30", "Completion totals in the file match the level's filth and surface",
  "In every written level each segment's stored totals equal the filth in that segment: the number of non-spike filth edges on the collision layer, the sum of the filth values of the enemies located in it, the number of dustblock tiles on the collision layer, and the number of solid and visible edges on the collision layer that are not spikes. Tiles on other layers and spikes never count, and every enemy class contributes its documented filth amount.",
  ["inputs"], "all levels with any filth, spikes, dustblocks and enemies in any segments",
  "wrong totals make a level impossible to complete in the game but are ignored by the library's reader",
  [D+"dfwriter.py", D+"entity.py", D+"tile.py"],
  [("totals", D+"dfwriter.py:_write_segment"), ("enemy filth", D+"entity.py:Enemy.FILTH"), ("dustblocks", D+"tile.py:is_dustblock")],
  ["segment headers of the written file"])
p("C31", "Several objects can share one stream, and streams are closed only if owned",
  "Any sequence of levels, replays, variable files and raw bits written one after another to one stream, starting at any byte offset, is read back in order by one reader with the position ending exactly after each object. Closing a reader or writer flushes every pending bit and closes the underlying stream if and only if it has not been released, for buffered, unbuffered and in-memory streams. Objects on different streams never influence each other, even when one is read or written in the middle of reading or writing another.",
  ["histories", "configurations"], "all sequences of objects, all starting offsets and stream kinds",
  "each test uses a fresh stream per object",
  [D+"bitio.py", D+"dfreader.py", D+"dfwriter.py"],
  [("stream ownership", D+"bitio.py:close/release"), ("relative offsets", D+"dfwriter.py:write_level_ex")],
  ["stream contents and state", "bit_tell"])
p("C32", "Sprite and filth helpers of a tile describe it and edit only the sprite",
  "For every tile, whatever was done to it before: has_filth is true exactly when some edge carries filth; is_dustblock is true exactly when the sprite index is the dustblock of the tile's sprite set; set_dustblock changes only the sprite index and palette, makes the tile a dustblock, and raises ValueError without changing anything for sets that have none; set_sprite_tuple and get_sprite_tuple carry exactly sprite set, index and palette from one tile to another; sprite_path names the file of exactly that sprite. The queries change nothing, concern no other tile, and answer the same after the tile was written to a level file and read back.",
  ["inputs", "histories"], "all tiles, sprites and filth placements, all sequences of sprite and filth edits on several tiles",
  "the helpers depend on tables indexed by sprite set and on each of four edges; the suite calls few of them with one value each",
  [D+"tile.py"],
  [("dustblock table", D+"tile.py:SPRITE_SET_DUSTBLOCK_TILE"), ("sprite helpers", D+"tile.py:get_sprite_tuple/set_sprite_tuple/sprite_path"), ("queries", D+"tile.py:has_filth/is_dustblock/set_dustblock")],
  ["results of the helpers", "tile attributes"])
p("C33", "New objects have the documented defaults and share no state",
  "Every newly constructed level, tile, entity of any class, replay (with its player, entity and frame records), struct or array variable has its documented default contents, no matter what was done to objects made earlier; changing one object in place never changes another, including entities, structs and arrays constructed from the same dictionary or list, the array defaults that entity accessors hand out, a level and its backdrop, and two levels read from the same bytes. Within one level, replay or set of variables, made, read, transformed, upscaled, merged or copied, changing one attribute of one tile, edge, prop, entity, variable or frame changes nothing else.",
  ["histories"], "all interleavings of creating, reading and changing objects in place",
  "shared mutable defaults and cached objects show only after a particular earlier change to another object",
  [D+"level.py", D+"entity.py", D+"variable.py", D+"replay.py", D+"tile.py", D+"dfreader.py"],
  [("containers", D+"variable.py:VariableStruct/VariableArray"), ("entity construction", D+"entity.py:Entity.__init__"), ("accessor defaults", D+"entity.py:bind_prop"), ("replay records", D+"replay.py:Replay/PlayerData/EntityData")],
  ["public attributes of every live object"])
p("C34", "Every way of starting a command does the same, as a process or as a call",
  "For every session of commands on a folder of files: a command run as its own process through python -m dustmaker, python -m dustmaker.cmd.main, the console entry point, or the command's own module leaves the same files, prints the same document and ends the same way (exit status zero on success, non-zero on any failure or wrong command line) as calling the entry point in a process that has run other commands before, whatever the hash seed, locale or output encoding. A rejected or failed command changes no file of the folder. Printed variables are a UTF-8 JSON document that applies back and prints the same again. --help succeeds, names the options and writes nothing.",
  ["histories", "configurations"], "all sessions of commands, entry points, locales and hash seeds",
  "the suite never starts a command as a process and never reaches run_utility or __main__",
  [D+"__main__.py", D+"cmd/main.py", D+"cmd/common.py", D+"cmd/variables.py", D+"cmd/thumbnail.py", D+"cmd/transform.py", D+"cmd/save_convert.py"],
  [("dispatch", D+"cmd/main.py:main"), ("single commands", D+"cmd/common.py:run_utility"), ("package entry", D+"__main__.py")],
  ["exit status", "standard output", "files of the working folder"])
p("C35", "Saving and reloading or copying a level while editing it makes no difference",
  "For every editing session (adding, changing, moving, copying and deleting tiles, props and entities of the level and its backdrop, accessors and raw variables, transformations, enlargements, merges, renumbering, edge calculation), interrupted at any point by writing the level and going on with it as read back (whole, region by region, or after a metadata-only rewrite), with a deep copy, with an unpickled copy, with new dictionaries or with the level itself: every later operation gives the same result, the level holds the same contents after every step, and files written at the same point are byte for byte equal.",
  ["histories", "inputs"], "all sessions of edits and all placements of checkpoints in them",
  "needs objects that have been read, edited, transformed and written again; state kept beside the public attributes shows only in such histories",
  [D+"level.py", D+"tile.py", D+"entity.py", D+"prop.py", D+"variable.py", D+"dfreader.py", D+"dfwriter.py", D+"transform.py"],
  [("unpacked and packed tile data", D+"tile.py:_unpack_tile_data/_pack_tile_data"), ("id allocation", D+"level.py:_gen_id/_note_id/calculate_max_id"), ("raw entities", D+"entity.py:_from_raw")],
  ["results of operations", "public attributes of the level", "bytes written"])
p("C36", "Documented names mean the game's numbers, in files read and written",
  "For every level and replay built with documented names only (tile shapes and sides, sprite and filth sets, dustblocks, level types, camera node types, characters, intent streams, mouse buttons in any combination, variable types): the file written carries the game's number for each name, a file with that number is read as an object equal to that name and to no other, in every file layout and replay version. The published tables (shape vertexes, sides of a shape in clockwise order, clockwise side index, dustblock tile of a sprite set) describe every shape, side and set as the game does.",
  ["inputs"], "all combinations of names in one file, layouts and replay versions",
  "round trips of the library with itself agree for any consistent renumbering; the suite reads two files with a handful of names",
  [D+"tile.py", D+"level.py", D+"replay.py", D+"entity.py", D+"variable.py", D+"dfreader.py", D+"dfwriter.py"],
  [("tile enumerations and tables", D+"tile.py:TileShape/TileSide/TileSpriteSet/SHAPE_VERTEXES/SHAPE_ORDERED_SIDES"), ("level types", D+"level.py:LevelType"), ("replay enumerations", D+"replay.py:Character/IntentStream/MouseState"), ("camera nodes", D+"entity.py:CameraNodeType"), ("variable types", D+"variable.py:VariableType")],
  ["numbers in the files written", "values of attributes read"])
p("C37", "Entity classes added by the user take full part in level operations",
  "For every entity class the user adds (deriving from Entity or a documented class, with its own constructor, hooks written in the class or mixed in): an entity of it is written under its type name and read back as the class last defined for that name, or as a plain entity if it has none; every rotation, flip, translation and upscale calls its transform with the matrix that moves the entity, and every renumbering or merge calls its remap_ids with the map from each entity's old id to its new one and from anything else to nothing; no other operation calls them; what the hooks do not change stays unchanged; merging and copying keep class and attributes.",
  ["histories"], "all histories of transforming, renumbering, merging, saving and redefining with any user classes",
  "the documentation invites users to override these hooks, but the suite defines no class of its own",
  [D+"entity.py", D+"level.py", D+"dfreader.py", D+"dfwriter.py"],
  [("registration", D+"entity.py:Entity.__init_subclass__/_from_raw"), ("hooks", D+"entity.py:Entity.remap_ids/transform"), ("callers", D+"level.py:Level.transform/remap_ids/merge")],
  ["calls the user's methods receive", "entities of the level afterwards"])

def main():
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for d in P:
            assert len(d["title"]) <= 80, d["id"]
            f.write(json.dumps(d) + "\n")
if __name__ == "__main__":
    main()
