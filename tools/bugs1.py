R, W, B, V = "dustmaker/dfreader.py", "dustmaker/dfwriter.py", "dustmaker/bitio.py", "dustmaker/variable.py"
L, T, E, X, P = "dustmaker/level.py", "dustmaker/tile.py", "dustmaker/entity.py", "dustmaker/transform.py", "dustmaker/prop.py"
CV, CS, CT, CX, RP = ("dustmaker/cmd/variables.py", "dustmaker/cmd/save_convert.py", "dustmaker/cmd/thumbnail.py",
                      "dustmaker/cmd/transform.py", "dustmaker/replay.py")

BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


PRE = """
import io, sys
from dustmaker import DFReader, DFWriter, read_level, write_level
from dustmaker.level import *
from dustmaker.tile import *
from dustmaker.entity import *
from dustmaker.prop import Prop
from dustmaker.variable import *
from dustmaker.transform import TxMatrix
from dustmaker.replay import *
"""

# ---------------------------------------------------------------- C01
bug("c01-a", "C01", [(W, "for i in range(21) if segment.tiles[i]]", "for i in range(20) if segment.tiles[i]]")],
    "a level with tiles on layer 20, the topmost one",
    "tiles on layer 20 are silently dropped when a level is written",
    PRE + """
lv = Level()
lv.tiles[(20, 3, -7)] = Tile(TileShape.HALF_B)
assert read_level(write_level(lv)).tiles == lv.tiles
""")
bug("c01-b", "C01", [(W, "scale_lg = int(round(log(prop.scale) / log(50.0) * 24.0)) + 32",
                       "scale_lg = int(log(prop.scale) / log(50.0) * 24.0) + 32")],
    "a prop whose representable scale lands a hair inside a quantisation step (floating point log)",
    "the scale of a prop drifts by one step each time the level is written",
    PRE + """
lv = Level()
lv.level_type = LevelType.DUSTMOD
for k in range(-32, 17):
    lv.add_prop(12, 10.0, 10.0, Prop(0, 0, False, False, pow(50.0, k / 24.0), 1, 2, 3, 4))
out = read_level(write_level(lv))
for i in lv.props:
    assert abs(out.props[i][3].scale / lv.props[i][3].scale - 1) < 1e-6, i
""")
bug("c01-c", "C01", [(W, "                if entity.etype.startswith(\"z_\") or entity.etype == \"entity\":\n                    self.write_6bit_str(\"entity\")\n                    extra_names_writer.write_6bit_str(entity.etype)",
                       "                if entity.etype.startswith(\"z_\"):\n                    self.write_6bit_str(\"entity\")\n                    extra_names_writer.write_6bit_str(entity.etype[:32])")],
    "a dustmod entity (z_ prefix) whose type name is longer than 32 characters",
    "long extended type names come back truncated", PRE + """
lv = Level()
e = Entity(); e.etype = "z_" + "q" * 40
lv.add_entity(1.0, 2.0, e)
o = read_level(write_level(lv))
assert [x[2].etype for x in o.entities.values()] == [e.etype]
""")
# ---------------------------------------------------------------- C02
bug("c02-a", "C02", [(W, "            if y < 0:\n                y += 1 << 16\n            return (x, y)", "            return (x, y)")],
    "a level spanning regions with the same x where one has a negative and another a non-negative y",
    "the region directory is not in the order the game looks regions up in",
    PRE + """
import struct
lv = Level()
for ty in (-300, 5, 300, -5):
    lv.tiles[(19, 1, ty)] = Tile()
with DFReader(io.BytesIO(write_level(lv))) as r:
    _, offs = r.read_level_ex()
    data = r.read_bytes(offs[-1])
ys = [struct.unpack_from("<H", data, o + 10)[0] for o in offs[:-1]]
assert ys == sorted(ys), ys
""")
bug("c02-b", "C02", [(W, "        self.write(16, len(region.segment_map))\n", "        self.write(16, len(region.segment_map) + (1 if region.backdrop.present else 0))\n"),
                      (R, "        for _ in range(segments):\n            sub_reader.align()", "        for _ in range(segments - has_backdrop):\n            sub_reader.align()")],
    "two sites that agree with each other; a level with a backdrop in the region",
    "the segment count of regions with a backdrop is one too many for the game (and one too few is read from the game's files)",
    PRE + """
import struct
lv = Level()
lv.tiles[(19, 1, 1)] = Tile()
lv.backdrop.tiles[(19, 1, 1)] = Tile()
with DFReader(io.BytesIO(write_level(lv))) as r:
    _, offs = r.read_level_ex()
    data = r.read_bytes(offs[-1])
assert struct.unpack_from("<H", data, 14)[0] == 1
""")
# ---------------------------------------------------------------- C03
bug("c03-b", "C03", [(R, "                self.skip(-extra_names_index - 32)", "                self.skip(-((extra_names_index + 7) & ~7) - 32)")],
    "a segment with extended entity names whose name table length is not a whole number of bytes",
    "names of dustmod entities are read from the wrong bit when the entity list does not end on a byte boundary",
    PRE + """
lv = Level()
for k in range(8):
    lv = Level()
    a = Entity(); a.etype = "z_foo"; a.variables = {"k" * (i + 1): VariableBool(True) for i in range(k)}
    lv.add_entity(1.0, 2.0, a)
    o = read_level(write_level(lv))
    assert [x[2].etype for x in o.entities.values()] == ["z_foo"], k
""")
# ---------------------------------------------------------------- C04
# ---------------------------------------------------------------- C05
bug("c07-d", "C07", [(W, "        if end_index - start_index != region_offsets[-1] * 8:\n            raise LevelParseException(\"got unexpected amount of regiond ata\")",
                       "        if end_index - start_index < region_offsets[-1] * 8:\n            raise LevelParseException(\"got unexpected amount of regiond ata\")")],
    "region data longer than the region directory says is passed to write_level_ex",
    "surplus region data is silently appended instead of being rejected",
    PRE + """
from dustmaker.exceptions import LevelParseException
lv = Level(); lv.tiles[(19, 0, 0)] = Tile()
with DFReader(io.BytesIO(write_level(lv))) as r:
    l2, offs = r.read_level_ex(); data = r.read_bytes(offs[-1])
try:
    with DFWriter(io.BytesIO()) as w: w.write_level_ex(l2, offs, data + b"xx")
except LevelParseException:
    sys.exit(0)
sys.exit("accepted")
""")
bug("c05-b", "C05", [(R, "        region_offsets.append(filesize - ((self.bit_tell() - start_index) >> 3))",
                       "        region_offsets.append(filesize - (self.bit_tell() >> 3))")],
    "a level that does not start at the beginning of its stream",
    "read_level_ex reports too little region data when the level lies behind other data",
    PRE + """
lv = Level(); lv.tiles[(19, 0, 0)] = Tile()
data = write_level(lv)
f = io.BytesIO(b"prefix" + data); f.seek(6)
with DFReader(f) as r:
    l2, offs = r.read_level_ex(); rd = r.read_bytes(offs[-1])
with DFWriter(io.BytesIO()) as w:
    w.write_level_ex(l2, offs, rd); out = w.data.getvalue()
assert read_level(out).tiles == lv.tiles
""")
# ---------------------------------------------------------------- C06
bug("c06-a", "C06", [(W, "                xs = elem_var.value\n                for i in range(0, 1 + len(xs) // max_width):",
                       "                xs = elem_var.value\n                for i in range(0, max(1, -(-len(xs) // max_width))):")],
    "a struct string whose length is an exact multiple of 65535",
    "the terminating continuation is missing, so the next variable is swallowed",
    PRE + """
d = {"a": VariableString(b"x" * 65535), "b": VariableInt(5)}
with DFWriter(io.BytesIO()) as w:
    w.write_var_file(b"DF_STA", d); data = w.data.getvalue()
with DFReader(io.BytesIO(data)) as r:
    assert r.read_var_file(b"DF_STA") == d
""")
bug("c06-b", "C06", [(W, "                    arrlen += len(x.value) // max_width", "                    arrlen += (len(x.value) - 1) // max_width if x.value else 0")],
    "an array of strings with an element whose length is an exact multiple of 65535",
    "the element count is one short, the array loses its tail and the rest of the stream is misread",
    PRE + """
d = {"a": VariableArray(VariableString, [VariableString(b"x" * 65535), VariableString(b"y")]), "b": VariableInt(5)}
with DFWriter(io.BytesIO()) as w:
    w.write_var_file(b"DF_STA", d); data = w.data.getvalue()
with DFReader(io.BytesIO(data)) as r:
    assert r.read_var_file(b"DF_STA") == d
""")
bug("c06-c", "C06", [(W, "        ipart = abs(floor(val))\n        fpart = int((val - floor(val)) * (2 ** (fbits - 1)))",
                       "        ipart = abs(floor(val))\n        fpart = int((val - floor(val)) * (2.0 ** (min(fbits, 28) - 1))) << max(fbits - 28, 0)")],
    "a float variable with more than 27 fractional bits",
    "the lowest fractional bits of float and vec2 variables are dropped",
    PRE + """
d = {"a": VariableFloat(1 + 2.0 ** -30)}
with DFWriter(io.BytesIO()) as w:
    w.write_var_file(b"DF_STA", d); data = w.data.getvalue()
with DFReader(io.BytesIO(data)) as r:
    assert r.read_var_file(b"DF_STA") == d
""")
# ---------------------------------------------------------------- C07
bug("c07-b", "C07", [(V, "            assert isinstance(elem, self.value[0])\n            elem._assert_types()", "            assert isinstance(elem, self.value[0])")],
    "an array whose element was mutated to an invalid value after construction",
    "assert_types accepts arrays holding invalid nested values",
    PRE + """
a = VariableArray(VariableInt, [VariableInt(1)])
a.value[1][0].value = 2 ** 40
try:
    a.assert_types()
except ValueError:
    sys.exit(0)
sys.exit("accepted")
""")
bug("c07-c", "C07", [(W, "            if arrlen > max_width:", "            if len(arr) > max_width:")],
    "a string array with few elements but more than 65535 pieces after long strings are split - or just above the limit",
    "an array too long for its 16 bit count is written with a wrapped count",
    PRE + """
arr = [VariableString(b"")] * 65535
arr[7] = VariableString(b"z" * 65535)
try:
    with DFWriter(io.BytesIO()) as w:
        w.write_variable(VariableArray(VariableString, arr))
except ValueError:
    sys.exit(0)
except Exception as e:
    sys.exit(repr(e))
sys.exit("accepted")
""")
# ---------------------------------------------------------------- C08
bug("c08-b", "C08", [(B, "        self.flush()\n        super().bit_seek(pos)", "        if pos != self._tell:\n            self.flush()\n        super().bit_seek(pos)")],
    "a writer with pending bits that seeks (allow_unaligned) to the very position it is at",
    "bits written before the seek are lost",
    PRE + """
w = DFWriter(io.BytesIO())
w.write(3, 7)
w.bit_seek(3, allow_unaligned=True)
w.bit_seek(8)
w.write(8, 1)
w.flush()
assert w.data.getvalue() == bytes([7, 1]), w.data.getvalue()
""")
# ---------------------------------------------------------------- C09
bug("c09-a", "C09", [(R, "        return sign * ipart + 1.0 * fpart / (1 << (fbits - 1))", "        return sign * ipart + 1.0 * fpart / (2**fbits / 2 or 1) if ipart or sign > 0 else -1.0 * fpart / (1 << (fbits - 1))")],
    "a stored number with the sign bit set and a zero integer part", "minus zero point something is read as negative fraction although the fraction is always added",
    PRE + """
w = DFWriter(io.BytesIO()); w.write(1, 1); w.write(31, 0); w.write(8, 64); w.flush()
r = DFReader(io.BytesIO(w.data.getvalue()))
assert r.read_float(32, 8) == 0.5
""")
bug("c09-c", "C09", [(W, "        fpart = int((val - floor(val)) * (2 ** (fbits - 1)))", "        fpart = int(round((val - floor(val)) * (2 ** (fbits - 1))))")],
    "a coordinate within half a resolution step below a whole number", "the fraction rounds up to a full unit, or to the nearest instead of down",
    PRE + """
w = DFWriter(io.BytesIO()); w.write_float(32, 8, 5.999); w.flush()
v = DFReader(io.BytesIO(w.data.getvalue())).read_float(32, 8)
assert v == 5 + 127 / 128, v
""")
# ---------------------------------------------------------------- C10
bug("c10-a", "C10", [(W, "                        if count <= 0xFF:\n", "                        if count < 0xFF:\n")],
    "an input held for exactly 255 frames (or a multiple)", "the run-length encoder emits an empty run",
    PRE + """
rep = Replay(version=4, frames=300, level=b"x", players=[PlayerData(intents={IntentStream.JUMP: [1] * 255 + [2] * 10})])
w = DFWriter(io.BytesIO()); w.write_replay(rep); w.flush()
r = DFReader(io.BytesIO(w.data.getvalue())).read_replay()
p = r.players[0]
assert [p.get_intent_value(IntentStream.JUMP, i) for i in range(300)] == [1] * 255 + [2] * 10 + [0] * 35
""")
# ---------------------------------------------------------------- C11
bug("c11-a", "C11", [(R, "self.read_bytes(known_length - (self.bit_tell() - start_pos) // 8)", "self.read_bytes(known_length - self.bit_tell() // 8)")],
    "a replay that does not start at the beginning of the stream, read with known_length", "too few compressed bytes are taken",
    PRE + """
rep = Replay(version=4, frames=1, level=b"x", players=[PlayerData()])
w = DFWriter(io.BytesIO()); w.write_replay(rep); w.flush()
d = w.data.getvalue()
f = io.BytesIO(b"abc" + d + b"def"); f.seek(3)
assert DFReader(f).read_replay(known_length=len(d)).level == b"x"
""")
bug("c11-b", "C11", [(W, "                    if len(run_lengths) > 1 and run_lengths[-1][", "                    if len(run_lengths) > 0 and run_lengths[-1][")],
    "an intent stream that is neutral throughout", "an all-default stream is written with no runs at all", 
    PRE + """
import zlib, struct
rep = Replay(version=1, frames=10, level=b"x", players=[PlayerData(intents={IntentStream.X: [0] * 10})])
w = DFWriter(io.BytesIO()); w.write_replay(rep); w.flush()
r = DFReader(io.BytesIO(w.data.getvalue())).read_replay()
d = zlib.decompress(w.data.getvalue()[6 + 1 + 2 + 4 + 4 + 1 + 1 + 1:])
n = struct.unpack_from("<I", d, 4)[0]
# the game's layout: a first count byte, the default value, then 0xFF
bits = int.from_bytes(d[8:8 + n], "little")
assert bits & 0xFF != 0xFF and (bits & 0xFF, bits >> 8 & 3, bits >> 10 & 0xFF) == (10, 1, 0xFF), hex(bits)
""")
bug("c11-c", "C11", [(R, "                    sub_reader.bit_seek(next_pos)\n", "                    sub_reader.align()\n")],
    "a replay whose intent block is longer than its terminator (padding)", "the declared block length is ignored",
    PRE + """
import zlib, struct
def block(pad): 
    b = bytes([0xFF]) + bytes(pad)
    return struct.pack("<I", len(b)) + b
for pad in (0, 3):
    inp = b"".join(block(pad) for _ in range(7))
    sub = struct.pack("<I", len(inp)) + inp + struct.pack("<I", 1) + struct.pack("<IIIIiiii", 2, 0, 1, 8, 10, 20, 300, 400)
    sub = sub[:len(inp) + 8] + sub[len(inp) + 8:]
    d = b"DF_RPL1" + struct.pack("<HII", 1, len(sub), 5) + b"\\x00" + b"\\x01x" + zlib.compress(sub)
    r = DFReader(io.BytesIO(d)).read_replay()
    assert r.entities[2].frames[0].x_pos == 1.0, pad
""")
# ---------------------------------------------------------------- C12
