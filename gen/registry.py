"""Which components decide which property."""
import importlib

PROPS = {}
for m in ("jitter", "ring", "mixer", "rtpout", "session", "rtpmisc", "sdp", "dtmf", "pipe", "media", "codecs", "call", "dump", "room", "chain"):
    mod = importlib.import_module("c_" + m)
    for k, f in mod.PROPS.items():
        PROPS[k] = f
