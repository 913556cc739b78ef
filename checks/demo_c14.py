def demo(so):
    """Known findings that still show on the real code."""
    from bup import shquote
    bad = 0
    for w in (b'a\\', b"\\'"):
        r = shquote.quotify(shquote.q, w, True)
        if [x for _, x in shquote.quotesplit(r)] != [w]: bad += 1
    return ['shquote.quotify(b"\'", word, True)'] if bad else []
