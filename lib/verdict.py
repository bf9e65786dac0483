"""Reading metamath's answers."""
import re
# a proof saved in the session has no file position, and the message may
# follow the progress dots on the same line
ERR = re.compile(r'\?Error(?:\s+on\s+line\s+\d+\s+of\s+file\s+"[^"]*")?\s+at\s+statement\s+\d+,\s+label\s+"([^"]*)"')

def verify_verdicts(out, labels):
    """-> ({label: ok|err|unproved}, all_verified_line, raw part)"""
    v = dict.fromkeys(labels, "ok")
    for m in ERR.finditer(out):
        if m.group(1) in v:
            v[m.group(1)] = "err"
    m = re.search(r"statement\(s\) were not proved:(.*)", out, re.S)
    if m:
        for l in re.split(r"[,\s]+", m.group(1)):
            if l in v and v[l] == "ok":
                v[l] = "unproved"
    return v, "All proofs in the database were verified" in out
