"""planted bugs of imports and exports of essence"""
from mkseed import seed
from demopre import PRE

M, A = "src/aaf2/mobs.py", "src/aaf2/audio.py"
WAV = '''
import struct
def wav(name, ch, rate, bits, n):
    w = (bits + 7) // 8
    data = os.urandom(n * ch * w)
    fmt = struct.pack("<HHLLHH", 1, ch, rate, rate * ch * w, ch * w, bits)
    c = b"WAVEfmt " + struct.pack("<L", 16) + fmt + b"data" + struct.pack("<L", len(data)) + data + b"\\0" * (len(data) % 2)
    p = os.path.join(d, name)
    open(p, "wb").write(b"RIFF" + struct.pack("<L", len(c)) + c)
    return p, data
'''
seed("s29-raw-planes-rounded", "C16", [(M, """        raw_frame_size_bits = 0
        for layout in pixel_layout:
            raw_frame_size_bits += layout.get('Size', 0) * width * height

        raw_frame_size = (raw_frame_size_bits + 7) // 8
""", """        raw_frame_size = 0
        for layout in pixel_layout:
            raw_frame_size += (layout.get('Size', 0) * width * height + 7) // 8

""")], "raw video with components that are not whole bytes, and a number of pixels that is not a multiple of 8", "frames are cut at the wrong places: each frame of the file takes bytes of the next", PRE + '''
w, h, n = 33, 7, 5
size = (32 * w * h + 7) // 8
data = os.urandom(size * n).replace(b"\\0", b"\\1")
open(os.path.join(d, "a.raw"), "wb").write(data)
with aaf2.open(path, "w") as f:
    m = f.create.SourceMob("m"); f.content.mobs.append(m)
    m.import_rawvideo_essence(os.path.join(d, "a.raw"), 25, w, h, [{"Code": "CompRed", "Size": 10}, {"Code": "CompGreen", "Size": 10}, {"Code": "CompBlue", "Size": 10}, {"Code": "CompFill", "Size": 2}])
with aaf2.open(path) as f:
    m = next(f.content.sourcemobs())
    check(m.slots.value[0].segment.length == n, m.slots.value[0].segment.length)
    s = m.essence.open("r").read()
    fs = m.descriptor["FrameSampleSize"].value
    check(len(s) == n * fs, len(s), fs)
    for i in range(n):
        check(s[i * fs:i * fs + size] == data[i * size:(i + 1) * size], i)
''')
seed("s30-wave-20-bits", "C16", [(A, "self._sampwidth = (sampwidth + 7) // 8", "self._sampwidth = sampwidth // 8")], "a wave file with samples of 20 bits", "the sound is described as half as long again, with samples of two bytes", PRE + WAV + '''
p, data = wav("a.wav", 2, 48000, 20, 5000)
with aaf2.open(path, "w") as f:
    m = f.create.SourceMob("m"); f.content.mobs.append(m)
    s = m.import_audio_essence(p, 25)
    check(m.essence.open("r").read() == data)
    check(m.descriptor["Length"].value == 5000, m.descriptor["Length"].value)
    check(s.segment.length == 2, s.segment.length)
''')
seed("s31-duration-rounded-up", "C16", [(M, "slot.segment.length = length or int(rescale(frames, sample_rate, edit_rate))", "slot.segment.length = length or int(round(rescale(frames, sample_rate, edit_rate)))")], "a wave file that ends in the second half of a frame", "the clip lasts longer than its essence", PRE + WAV + '''
p, data = wav("a.wav", 1, 48000, 16, 1920 * 3 + 1800)
with aaf2.open(path, "w") as f:
    m = f.create.MasterMob("m"); f.content.mobs.append(m)
    s = m.import_audio_essence(p, 25)
    check(s.segment.length == 3, s.segment.length)
''')
