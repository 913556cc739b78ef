From 5e1da79075245265387330271b480a313435c271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:53 +0000
Subject: [PATCH 01/53] fix: encode all 64-bit integers in the native vint
 encoders

The stack buffers were 8 bytes, but values over 56 bits need up to 10,
and encoding LLONG_MIN never terminated because its negation is not
representable.  Also report the pending exception when pack() rejects
a negative vuint.
---
 lib/bup/_helpers.c | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/lib/bup/_helpers.c b/lib/bup/_helpers.c
index 0d81033..a18dec6 100644
--- a/lib/bup/_helpers.c
+++ b/lib/bup/_helpers.c
@@ -1350,21 +1350,22 @@ static unsigned int vint_encode(long long val, char *buf)
 {
     unsigned int len = 1;
     char sign = 0;
+    unsigned long long mag = val; // magnitude, since -LLONG_MIN > LLONG_MAX
 
     if (val < 0) {
         sign = 0x40;
-        val = -val;
+        mag = 0 - mag;
     }
 
-    buf[0] = (val & 0x3f) | sign;
-    val >>= 6;
-    if (val)
+    buf[0] = (mag & 0x3f) | sign;
+    mag >>= 6;
+    if (mag)
         buf[0] |= 0x80;
 
-    while (val) {
-        buf[len] = val & 0x7f;
-        val >>= 7;
-        if (val)
+    while (mag) {
+        buf[len] = mag & 0x7f;
+        mag >>= 7;
+        if (mag)
             buf[len] |= 0x80;
         len++;
     }
@@ -1376,7 +1377,7 @@ static PyObject *bup_vuint_encode(PyObject *self, PyObject *args)
 {
     long long val;
     // size the buffer appropriately - need 8 bits to encode each 7
-    char buf[(sizeof(val) + 1) / 7 * 8];
+    char buf[(sizeof(val) * 8 + 6) / 7];
 
     if (!PyArg_ParseTuple(args, "L", &val))
 	return NULL;
@@ -1392,7 +1393,7 @@ static PyObject *bup_vint_encode(PyObject *self, PyObject *args)
 {
     long long val;
     // size the buffer appropriately - need 8 bits to encode each 7
-    char buf[(sizeof(val) + 1) / 7 * 8];
+    char buf[(sizeof(val) * 8 + 6) / 7];
 
     if (!PyArg_ParseTuple(args, "L", &val))
 	return NULL;
@@ -1945,7 +1946,10 @@ static PyObject *bup_limited_vint_pack(PyObject *self, PyObject *args)
                                     i);
             if (end - pos < 10)
                 goto overflow;
-	    pos += vuint_encode(val, pos);
+            unsigned int len = vuint_encode(val, pos);
+            if (!len)
+                goto error;
+            pos += len;
             break;
         }
         case 'v': {
-- 
2.43.0


From 7a8bc8bc1615f14f5529eea980b0df62936f4d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:53 +0000
Subject: [PATCH 02/53] fix: don't reject empty or accept truncated byte
 vectors in skip_bvec

---
 lib/bup/vint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bup/vint.py b/lib/bup/vint.py
index 1969d11..876c0c4 100644
--- a/lib/bup/vint.py
+++ b/lib/bup/vint.py
@@ -141,7 +141,7 @@ def skip_bvec(port):
     if n is None:
         raise EOFError('encountered EOF while skipping bvec')
     val = port.read(n)
-    if not val:
+    if len(val) != n: # e.g. EOF when n != 0
         raise EOFError('encountered EOF while skipping bvec')
 
 
-- 
2.43.0


From 31457694076f46222777db397e3b90f7b64d8393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:59 +0000
Subject: [PATCH 03/53] fix: prune-older: don't conflate days or months of
 different years

Consecutive saves made on the same day of the year (or in the same
month) of different years were treated as belonging to the same day
(month), and so all but the newest were dropped.
---
 lib/bup/cmd/prune_older.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lib/bup/cmd/prune_older.py b/lib/bup/cmd/prune_older.py
index 6c22182..6613613 100644
--- a/lib/bup/cmd/prune_older.py
+++ b/lib/bup/cmd/prune_older.py
@@ -37,8 +37,18 @@ def classify_saves(saves, period_start):
     for save in matches:
         yield True, save
 
-    tm_ranges = ((period_start['dailies'], lambda s: localtime(s[0]).tm_yday),
-                 (period_start['monthlies'], lambda s: localtime(s[0]).tm_mon),
+    # Adjacent saves may be a year or more apart, so a day or month has
+    # to be identified together with its year.
+    def day(s):
+        tm = localtime(s[0])
+        return tm.tm_year, tm.tm_yday
+
+    def month(s):
+        tm = localtime(s[0])
+        return tm.tm_year, tm.tm_mon
+
+    tm_ranges = ((period_start['dailies'], day),
+                 (period_start['monthlies'], month),
                  (period_start['yearlies'], lambda s: localtime(s[0]).tm_year))
 
     # Break the decreasing utc sorted saves up into the respective
-- 
2.43.0


From 04ea604f7a7703a8799a2bc3389ea176c92b01d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:59 +0000
Subject: [PATCH 04/53] fix: prune-older: always keep saves newer than --wrt,
 as documented

Without --keep-all-for, all but the newest of the saves within any given
day (month, year) after the --wrt time were dropped.
---
 lib/bup/cmd/prune_older.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/bup/cmd/prune_older.py b/lib/bup/cmd/prune_older.py
index 6613613..6689a50 100644
--- a/lib/bup/cmd/prune_older.py
+++ b/lib/bup/cmd/prune_older.py
@@ -136,6 +136,9 @@ def main(argv):
                 when = strftime('%Y-%m-%d-%H%M%S', period_local)
                 log(f'keeping {kind} since {when}\n')
 
+    # Always keep any saves newer than the end of the periods (--wrt)
+    period_start['all'] = min(period_start['all'], now + 1)
+
     git.check_repo_or_die()
 
     # This could be more efficient, but for now just build the whole list
-- 
2.43.0


From e1fd1053995c52a8b40fff9bc3c6d1af183ad92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:55 +0000
Subject: [PATCH 05/53] fix: shquote: escape backslashes in (double, un)quoted
 words

Otherwise quotesplit() dropped them again, or even took one for an escape
of the closing quote.
---
 lib/bup/shquote.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/bup/shquote.py b/lib/bup/shquote.py
index 4706510..606890e 100644
--- a/lib/bup/shquote.py
+++ b/lib/bup/shquote.py
@@ -110,10 +110,11 @@ def quotify(qtype, word, terminate):
       The quoted bytes.
     """
     if qtype == qq:
-        return qq + word.replace(qq, b'\\"') + (terminate and qq or b'')
+        word = word.replace(b'\\', b'\\\\').replace(qq, b'\\"')
+        return qq + word + (terminate and qq or b'')
     if qtype == q:
         return q + word.replace(q, b"\\'") + (terminate and q or b'')
-    return re.sub(br'([\"\' \t\n\r])', br'\\\1', word)
+    return re.sub(br'([\\\"\' \t\n\r])', br'\\\1', word)
 
 
 def quotify_list(words):
@@ -133,8 +134,8 @@ def quotify_list(words):
         qtype = q
         if word and not re.search(br'[\s\"\']', word):
             qtype = b''
-        elif q in word and qq not in word:
-            qtype = qq
+        elif b'\\' in word or (q in word and qq not in word):
+            qtype = qq # single quotes can't protect every backslash
         wordout.append(quotify(qtype, word, True))
     return b' '.join(wordout)
 
-- 
2.43.0


From 9c94cc372775fcaa790e60b665acb26ef5a9d997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:55 +0000
Subject: [PATCH 06/53] fix: shquote: report an unfinished word that's still
 empty

Completing a line ending with just an opening quote (or backslash)
crashed or completed the previous word instead.
---
 lib/bup/shquote.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bup/shquote.py b/lib/bup/shquote.py
index 606890e..0e44e38 100644
--- a/lib/bup/shquote.py
+++ b/lib/bup/shquote.py
@@ -42,7 +42,7 @@ def _quotesplit(line):
             wordstart = i+1
         else:
             word += c
-    if word:
+    if inquote or inescape or word:
         yield (wordstart, word)
     if inquote or inescape or word:
         raise QuoteError()
-- 
2.43.0


From e741c61a5af731f4718af13678f65a7f7a32767e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:47 +0000
Subject: [PATCH 07/53] fix: parse_num: reject numbers followed by garbage

Arguments like 1,000 or 10M/s were quietly read as 1 and 10M.
---
 lib/bup/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bup/helpers.py b/lib/bup/helpers.py
index b3eb852..1ef11d5 100644
--- a/lib/bup/helpers.py
+++ b/lib/bup/helpers.py
@@ -859,7 +859,7 @@ def parse_num(s):
         # FIXME: should this raise a ValueError for UnicodeDecodeError
         # (perhaps with the latter as the context).
         s = s.decode('ascii')
-    g = re.match(r'([-+\d.e]+)\s*(\w*)', str(s))
+    g = re.fullmatch(r'([-+\d.e]+)\s*(\w*)\s*', str(s))
     if not g:
         raise ValueError("can't parse %r as a number" % s)
     (val, unit) = g.groups()
-- 
2.43.0


From 040f0d4aed08e80750320a9324b4a0d6e7c21368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:47 +0000
Subject: [PATCH 08/53] fix: split: don't treat --max-pack-objects as the
 --max-pack-size

---
 lib/bup/cmd/split.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bup/cmd/split.py b/lib/bup/cmd/split.py
index 74aaeb0..2824504 100644
--- a/lib/bup/cmd/split.py
+++ b/lib/bup/cmd/split.py
@@ -87,7 +87,7 @@ def opts_from_cmdline(argv):
     if opt.max_pack_size:
         opt.max_pack_size = require_num('--max-pack-size', opt.max_pack_size)
     if opt.max_pack_objects:
-        opt.max_pack_size = require_num('--max-pack-objects', opt.max_pack_objects)
+        opt.max_pack_objects = require_num('--max-pack-objects', opt.max_pack_objects)
     if opt.fanout:
         opt.fanout = require_num('--fanout', opt.fanout)
     if opt.bwlimit:
-- 
2.43.0


From 7c9f451c3d79e6c40fc2bdc6ce597eca31355f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:47 +0000
Subject: [PATCH 09/53] fix: save, split: don't replace --date 0 with the
 current time

---
 lib/bup/cmd/save.py  | 2 +-
 lib/bup/cmd/split.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/bup/cmd/save.py b/lib/bup/cmd/save.py
index 6cecdbd..ea4b631 100644
--- a/lib/bup/cmd/save.py
+++ b/lib/bup/cmd/save.py
@@ -82,7 +82,7 @@ def opts_from_cmdline(argv):
         o.fatal("use one or more of -t, -c, -n")
     if not extra:
         o.fatal("no filenames given")
-    if opt.date:
+    if opt.date is not None:
         try:
             opt.date = parse_date_arg(b'--date', opt.date)
         except ValueError as ex:
diff --git a/lib/bup/cmd/split.py b/lib/bup/cmd/split.py
index 2824504..9318dbb 100644
--- a/lib/bup/cmd/split.py
+++ b/lib/bup/cmd/split.py
@@ -92,7 +92,7 @@ def opts_from_cmdline(argv):
         opt.fanout = require_num('--fanout', opt.fanout)
     if opt.bwlimit:
         opt.bwlimit = require_num('--bwlimit', opt.bwlimit)
-    if opt.date:
+    if opt.date is not None:
         try:
             opt.date = parse_date_arg(b'--date', opt.date)
         except ValueError as ex:
-- 
2.43.0


From 8db2a97d48c3d68a5d071ca9b155880e3d1f8546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:47 +0000
Subject: [PATCH 10/53] fix: print times before the epoch correctly

For example -1s was printed as 0, -0.5s as 0.500000000, and -1.25s as
-1.750000000.
---
 lib/bup/xstat.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/lib/bup/xstat.py b/lib/bup/xstat.py
index e87feec..4ae1a6e 100644
--- a/lib/bup/xstat.py
+++ b/lib/bup/xstat.py
@@ -37,12 +37,11 @@ def fstime_to_timespec(ns):
 
 
 def fstime_to_sec_bytes(fstime):
-    (s, ns) = fstime_to_timespec(fstime)
-    if(s < 0):
-        s += 1
+    sign = b'-' if fstime < 0 else b''
+    (s, ns) = fstime_to_timespec(abs(fstime))
     if ns == 0:
-        return b'%d' % s
-    return b'%d.%09d' % (s, ns)
+        return b'%s%d' % (sign, s)
+    return b'%s%d.%09d' % (sign, s, ns)
 
 def utime(path, times):
     """Times must be provided as (atime_ns, mtime_ns)."""
-- 
2.43.0


From 125a4119febf5046264037103f6597856da0453a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:26 +0000
Subject: [PATCH 11/53] fix: accept command line arguments that are integers
 where bytes are needed

The option parser turns an argument like 2024 into an int, so e.g. "bup
save -n 2024" crashed, and "bup save -n 0" was taken for no name.
---
 lib/bup/cmd/save.py  | 2 +-
 lib/bup/cmd/split.py | 2 +-
 lib/bup/compat.py    | 2 ++
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/bup/cmd/save.py b/lib/bup/cmd/save.py
index ea4b631..13ba8fd 100644
--- a/lib/bup/cmd/save.py
+++ b/lib/bup/cmd/save.py
@@ -72,7 +72,7 @@ def opts_from_cmdline(argv):
 
     if opt.indexfile:
         opt.indexfile = argv_bytes(opt.indexfile)
-    if opt.name:
+    if opt.name is not None:
         opt.name = argv_bytes(opt.name)
     if opt.remote:
         opt.remote = argv_bytes(opt.remote)
diff --git a/lib/bup/cmd/split.py b/lib/bup/cmd/split.py
index 9318dbb..8dccf2a 100644
--- a/lib/bup/cmd/split.py
+++ b/lib/bup/cmd/split.py
@@ -66,7 +66,7 @@ def opts_from_cmdline(argv):
             o.fatal(f'invalid {arg} ({str(ex)})')
             assert False # pylint
 
-    if opt.name: opt.name = argv_bytes(opt.name)
+    if opt.name is not None: opt.name = argv_bytes(opt.name)
     if opt.remote: opt.remote = argv_bytes(opt.remote)
     if opt.verbose is None: opt.verbose = 0
 
diff --git a/lib/bup/compat.py b/lib/bup/compat.py
index d8919a9..0c13fca 100644
--- a/lib/bup/compat.py
+++ b/lib/bup/compat.py
@@ -33,6 +33,8 @@ else:
 
 def argv_bytes(x):
     """Return the original bytes passed to main() for an argv argument."""
+    if isinstance(x, int): # options represents integral arguments as ints
+        x = str(x)
     return fsencode(x)
 
 # Access argv directly, given https://bugs.python.org/issue35883
-- 
2.43.0


From 84673654674a6d8847bed07f5f874ad66c5a7870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:54 +0000
Subject: [PATCH 12/53] fix: parse_git_int: reject values git considers out of
 range

The suffix was applied after the range check, so 9000000000g was accepted.
---
 lib/bup/git.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/lib/bup/git.py b/lib/bup/git.py
index aa5bcf1..8598697 100644
--- a/lib/bup/git.py
+++ b/lib/bup/git.py
@@ -80,11 +80,18 @@ def parse_git_int(v):
     if mag is None:
         raise ConfigError(f'unrecognized --type int value {path_msg(v)}')
     unit = v[suffix_i:]
-    if not unit: return mag
-    if unit in (b'k', b'K'): return mag * 1024
-    if unit in (b'm', b'M'): return mag * 1024 * 1024
-    if unit in (b'g', b'G'): return mag * 1024 * 1024 * 1024
-    raise ConfigError(f'unrecognized --type int value {path_msg(v)}')
+    if not unit: pass
+    elif unit in (b'k', b'K'): mag *= 1024
+    elif unit in (b'm', b'M'): mag *= 1024 * 1024
+    elif unit in (b'g', b'G'): mag *= 1024 * 1024 * 1024
+    else:
+        raise ConfigError(f'unrecognized --type int value {path_msg(v)}')
+    # git requires the magnitude to fit in an int64_t
+    if mag > 2**63 - 1:
+        raise ConfigError(f'--type int value {path_msg(v)} too large')
+    if mag < -(2**63 - 1):
+        raise ConfigError(f'--type int value {path_msg(v)} too small')
+    return mag
 
 
 def git_config_get(path, option, *, opttype=None):
-- 
2.43.0


From 836b444a84b7107e93ba06fe771b1c44ff8f8fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:40 +0000
Subject: [PATCH 13/53] fix: parse commits whose author or committer looks
 unusual

save and split record the full name from the password database as is,
e.g. "J. Smith Jr.", and then nothing could read the commit again.
---
 lib/bup/commit.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/lib/bup/commit.py b/lib/bup/commit.py
index d364087..36a308f 100644
--- a/lib/bup/commit.py
+++ b/lib/bup/commit.py
@@ -37,11 +37,10 @@ def parse_commit_gpgsig(sig):
 # https://github.com/git/git/blob/master/Documentation/technical/signature-format.txt
 # The continuation lines have only one leading space.
 
-_start_end_char = br'[^ .,:;<>"\'\0\n]'
-_content_char = br'[^\0\n<>]'
-_safe_str_rx = br'(?:%s{1,2}|(?:%s%s*%s))' \
-    % (_start_end_char,
-       _start_end_char, _content_char, _start_end_char)
+# Names and addresses may contain anything but the delimiters; git drops
+# "crud" like a trailing period from a name, but bup doesn't when it
+# records one, and either may be empty.
+_safe_str_rx = br'[^\0\n<>]*'
 _tz_rx = br'[-+]\d\d[0-5]\d'
 _parent_rx = br'(?:parent [abcdefABCDEF0123456789]{40}\n)'
 # Assumes every following line starting with a space is part of the
-- 
2.43.0


From 836b3a4802809fe05d04dcbdd8307f8b1da57505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:05 +0000
Subject: [PATCH 14/53] fix: parse commits dated before the epoch

save and split record them when --date is negative, and then nothing
could read the commit again.
---
 lib/bup/commit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/bup/commit.py b/lib/bup/commit.py
index 36a308f..230d72a 100644
--- a/lib/bup/commit.py
+++ b/lib/bup/commit.py
@@ -47,8 +47,8 @@ _parent_rx = br'(?:parent [abcdefABCDEF0123456789]{40}\n)'
 # mergetag.  Is there a formal commit blob spec?
 _mergetag_rx = br'(?:\nmergetag object [abcdefABCDEF0123456789]{40}(?:\n [^\0\n]*)*)'
 _commit_rx = re.compile(br'''tree (?P<tree>[abcdefABCDEF0123456789]{40})
-(?P<parents>%s*)author (?P<author_name>%s) <(?P<author_mail>%s)> (?P<asec>\d+) (?P<atz>%s)
-committer (?P<committer_name>%s) <(?P<committer_mail>%s)> (?P<csec>\d+) (?P<ctz>%s)(?P<mergetag>%s?)
+(?P<parents>%s*)author (?P<author_name>%s) <(?P<author_mail>%s)> (?P<asec>-?\d+) (?P<atz>%s)
+committer (?P<committer_name>%s) <(?P<committer_mail>%s)> (?P<csec>-?\d+) (?P<ctz>%s)(?P<mergetag>%s?)
 (?P<gpgsig>gpgsig .*\n(?: .*\n)*)?
 (?P<message>(?:.|\n)*)''' % (_parent_rx,
                              _safe_str_rx, _safe_str_rx, _tz_rx,
-- 
2.43.0


From b1632588ee7f71038b58fef58b506eb3357bd89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:09 +0000
Subject: [PATCH 15/53] fix: handle ports and ip address hosts in ssh URLs

Popen() rejects an int argument, and bytes formatting and joining
reject the str an ip address compresses to.
---
 lib/bup/client.py | 7 +++++--
 lib/bup/ssh.py    | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/bup/client.py b/lib/bup/client.py
index e118faf..a944f6b 100644
--- a/lib/bup/client.py
+++ b/lib/bup/client.py
@@ -199,7 +199,7 @@ class Client:
             self._closed = True # only false when ready for close
             host = url.host
             if isinstance(host, (IPv4Address, IPv6Address)):
-                host = host.compressed
+                host = host.compressed.encode('ascii')
             elif not isinstance(host, bytes):
                 raise Exception(f'unexpected host type for {host}')
             dest = host if not url.user else b'%s@%s' % (url.user, host)
@@ -343,7 +343,10 @@ class Client:
             elif self.remote:
                 legacy_id = _legacy_cache_id_for_remote(self.remote, True)
             else: # use the decoded path
-                legacy_id = _legacy_cache_id_for_host_path(url.host, self.path)
+                host = url.host
+                if isinstance(host, (IPv4Address, IPv6Address)):
+                    host = host.compressed.encode('ascii')
+                legacy_id = _legacy_cache_id_for_host_path(host, self.path)
             self.cachedir = self._prep_cache(legacy_id)
             ctx.pop_all()
         self.closed = False
diff --git a/lib/bup/ssh.py b/lib/bup/ssh.py
index c33470b..d99d0bf 100644
--- a/lib/bup/ssh.py
+++ b/lib/bup/ssh.py
@@ -48,7 +48,7 @@ def connect(destination, port, subcmd, stderr=None):
         force_tty = int(environ.get(b'BUP_FORCE_TTY', 0))
         argv = [b'ssh']
         if port:
-            argv.extend((b'-p', port))
+            argv.extend((b'-p', b'%d' % port))
         argv.extend((destination, b'--',
                      b"sh -c \"BUP_DEBUG=%d BUP_FORCE_TTY=%d %s %s\""
                      % (buglvl, force_tty, quote(bup), subcmd)))
-- 
2.43.0


From 66989e747301a7d9dfe4ac531bcc7745991dd522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:09 +0000
Subject: [PATCH 16/53] fix: get: accept file URLs for --source-url

URLs have no auth attribute.
---
 lib/bup/repo/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bup/repo/__init__.py b/lib/bup/repo/__init__.py
index 284cee4..0230131 100644
--- a/lib/bup/repo/__init__.py
+++ b/lib/bup/repo/__init__.py
@@ -77,6 +77,6 @@ def parse_repo_url_arg(arg, val, misuse):
     url = repo_location_url(res)
     if url.scheme not in public_schemes:
         misuse(f'invalid {arg} schema in {pm(val)}')
-    if url.scheme == b'file' and url.auth:
+    if url.scheme == b'file' and url._has_auth():
         misuse(f'{arg} {pm(val)} URL has extra leading slashes or an authority')
     return url
-- 
2.43.0


From c87ef08ec1fddd2f362a8717b1df5df542e9db53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:22 +0000
Subject: [PATCH 17/53] fix: render and parse URLs with colons, newlines, or
 port 0 correctly

A user containing a colon was rendered as a user and password (and the
latter dropped when parsed again), port 0 was omitted, and URLs
containing a newline were not recognized at all.
---
 lib/bup/url.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lib/bup/url.py b/lib/bup/url.py
index 4b55c25..f8c1328 100644
--- a/lib/bup/url.py
+++ b/lib/bup/url.py
@@ -43,8 +43,8 @@ class URL:
 
 # Needs percent encoding (inverted _host_reg_name_rx below without %)
 _enc_host_char_rx = re.compile(br"[^-._~0-9a-zA-Z!$&'()*+,;=']")
-# Same as above plus colon
-_enc_userinfo_char_rx = re.compile(br"[^-._~0-9a-zA-Z!$&'()*+,;=':]")
+# The user can't include a bare colon; that introduces the password
+_enc_user_char_rx = _enc_host_char_rx
 
 def _pct_encode(x, rx):
     def enc(m):
@@ -63,7 +63,7 @@ def render_url(self, dot_encode=False):
         assert self.scheme, self
         parts = [self.scheme, b'://']
         if self.user:
-            parts.append(_pct_encode(self.user, _enc_userinfo_char_rx))
+            parts.append(_pct_encode(self.user, _enc_user_char_rx))
             parts.append(b'@')
         if self.host:
             if isinstance(self.host, IPv4Address):
@@ -72,7 +72,7 @@ def render_url(self, dot_encode=False):
                 parts.append(f'[{self.host.compressed}]'.encode('ascii'))
             else:
                 parts.append(_pct_encode(self.host, _enc_host_char_rx))
-        if self.port:
+        if self.port is not None:
             parts.append(b':%d' % self.port)
         parts.append(path)
         return b''.join(parts)
@@ -88,9 +88,9 @@ def render_url(self, dot_encode=False):
         return with_auth(self.path)
     return b'%s:%s' % (self.scheme, self.path)
 
-_scheme_and_rest_rx = re.compile(br'([a-zA-Z][-+.a-zA-Z0-9]*):(//)?(.*)')
-_userinfo_host_port_rx = re.compile(br"(?:([-._~0-9a-zA-Z!$&'()*+,;='%:]*)@)?(.*?)(?::([0-9]*))?")
-#                                      ^------------- user ----------------^      ^--- port --^
+_scheme_and_rest_rx = re.compile(br'([a-zA-Z][-+.a-zA-Z0-9]*):(//)?((?s:.*))')
+_userinfo_host_port_rx = re.compile(br"(?:([-._~0-9a-zA-Z!$&'()*+,;='%:]*)@)?((?s:.*?))(?::([0-9]*))?")
+#                                      ^------------- user ----------------^           ^--- port --^
 _host_reg_name_rx = re.compile(br"[-._~0-9a-zA-Z!$&'()*+,;='%]*")
 _port_int_rx = re.compile(br'[0-9]+')
 
-- 
2.43.0


From d67b215a117ff1adee9836a30086842e36bbe149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:31 +0000
Subject: [PATCH 18/53] fix: hlinkdb: don't lose or misplace links when paths
 change

Adding a path again dropped the node's other paths, and change_path()
passed its arguments in the wrong order.
---
 lib/bup/hlinkdb.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/lib/bup/hlinkdb.py b/lib/bup/hlinkdb.py
index b71b550..c333bdb 100644
--- a/lib/bup/hlinkdb.py
+++ b/lib/bup/hlinkdb.py
@@ -81,11 +81,9 @@ class HLinkDB:
         # Assume path is new.
         node = b'%d:%d' % (dev, ino)
         self._path_node[path] = node
-        link_paths = self._node_paths.get(node)
-        if link_paths and path not in link_paths:
+        link_paths = self._node_paths.setdefault(node, [])
+        if path not in link_paths:
             link_paths.append(path)
-        else:
-            self._node_paths[node] = [path]
 
     def _del_node_path(self, node, path):
         link_paths = self._node_paths[node]
@@ -97,7 +95,7 @@ class HLinkDB:
         prev_node = self._path_node.get(path)
         if prev_node:
             self._del_node_path(prev_node, path)
-        self.add_path(new_dev, new_ino, path)
+        self.add_path(path, new_dev, new_ino)
 
     def del_path(self, path):
         # Path may not be in db (if updating a pre-hardlink support index).
-- 
2.43.0


From 8aea06b5adee68b02674f89cfc2c42fb601efa6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:45 +0000
Subject: [PATCH 19/53] fix: hlinkdb: don't remove the database when aborting a
 save

prepare_save() arranges for that when the database has become empty.
---
 lib/bup/hlinkdb.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/bup/hlinkdb.py b/lib/bup/hlinkdb.py
index c333bdb..0fecf68 100644
--- a/lib/bup/hlinkdb.py
+++ b/lib/bup/hlinkdb.py
@@ -63,9 +63,11 @@ class HLinkDB:
         if self.closed:
             return
         self.closed = True
-        with self._cleanup:
-            if self._pending_save:
+        if self._pending_save:
+            with self._cleanup:
                 self._pending_save.cancel()
+        else:
+            self._cleanup.pop_all() # don't run any pending unlink
         self._pending_save = None
 
     def __enter__(self):
-- 
2.43.0


From fcd5ed929e04fda5be436a75558885ac34c0569c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:31 +0000
Subject: [PATCH 20/53] fix: save: strip and graft only whole path components

For example, --strip-path /foo also stripped /foobar, --graft /a=/b also
affected /ab, and a backslash in the new path was misinterpreted.
---
 lib/bup/helpers.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/lib/bup/helpers.py b/lib/bup/helpers.py
index 1ef11d5..825aa9e 100644
--- a/lib/bup/helpers.py
+++ b/lib/bup/helpers.py
@@ -1056,18 +1056,23 @@ def path_components(path):
     return result
 
 
+def _path_is_in(path, parent):
+    """Return true if path is parent or below it (both normalized)."""
+    return path == parent or path.startswith(parent.rstrip(b'/') + b'/')
+
+
 def stripped_path_components(path, strip_prefixes):
     """Strip any prefix in strip_prefixes from path and return a list
     of path components where each component is (name,
     none_or_full_fs_path_to_name).  Assume path startswith('/').
     See thelpers.py for examples."""
     normalized_path = os.path.abspath(path)
-    sorted_strip_prefixes = sorted(strip_prefixes, key=len, reverse=True)
-    for bp in sorted_strip_prefixes:
-        normalized_bp = os.path.abspath(bp)
+    sorted_strip_prefixes = sorted((os.path.abspath(x) for x in strip_prefixes),
+                                   key=len, reverse=True)
+    for normalized_bp in sorted_strip_prefixes:
         if normalized_bp == b'/':
             continue
-        if normalized_path.startswith(normalized_bp):
+        if _path_is_in(normalized_path, normalized_bp):
             prefix = normalized_path[:len(normalized_bp)]
             result = []
             for p in normalized_path[len(normalized_bp):].split(b'/'):
@@ -1101,9 +1106,8 @@ def grafted_path_components(graft_points, path):
         # Expand prefixes iff not absolute paths.
         old_prefix = os.path.normpath(old_prefix)
         new_prefix = os.path.normpath(new_prefix)
-        if clean_path.startswith(old_prefix):
-            escaped_prefix = re.escape(old_prefix)
-            grafted_path = re.sub(br'^' + escaped_prefix, new_prefix, clean_path)
+        if _path_is_in(clean_path, old_prefix):
+            grafted_path = new_prefix + clean_path[len(old_prefix):]
             # Handle /foo=/ (at least) -- which produces //whatever.
             grafted_path = b'/' + grafted_path.lstrip(b'/')
             clean_path_components = path_components(clean_path)
-- 
2.43.0


From 0de2ee90043f78bb15b338d14a640c989f867c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:50 +0000
Subject: [PATCH 21/53] fix: merge_iter: don't ignore a source whose first item
 is false

An iterator whose first item was false in a boolean context (an empty
name, say) was treated as exhausted, and all of its items were lost.
---
 lib/bup/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bup/helpers.py b/lib/bup/helpers.py
index 825aa9e..b319494 100644
--- a/lib/bup/helpers.py
+++ b/lib/bup/helpers.py
@@ -266,7 +266,7 @@ def merge_iter(iters, pfreq, pfunc, pfinal, key=None):
     total = sum(len(it) for it in iters)
     iters = (iter(it) for it in iters)
     heap = ((next(it, None),it) for it in iters)
-    heap = [MergeIterItem(e, it) for e, it in heap if e]
+    heap = [MergeIterItem(e, it) for e, it in heap if e is not None]
 
     heapq.heapify(heap)
     pe = None
-- 
2.43.0


From b4c961426831b93bf2368b6c23cff9bd1b3954b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:03 +0000
Subject: [PATCH 22/53] fix: index: don't trust recent ctimes of changed paths
 either

A new path's recorded times are limited to a second before indexing
began, so that a later change that leaves the timestamps alone (because
it falls within their resolution) will still be noticed.  The limit was
never applied when updating an existing entry, since its tmax is always
None.
---
 lib/bup/cmd/index.py | 2 +-
 lib/bup/index.py     | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/bup/cmd/index.py b/lib/bup/cmd/index.py
index f9a3fea..629e9c1 100644
--- a/lib/bup/cmd/index.py
+++ b/lib/bup/cmd/index.py
@@ -152,7 +152,7 @@ def update_index(top, excluded_paths, exclude_rxs, fsindex,
                     meta.ctime = meta.mtime = meta.atime = 0
                     meta.freeze()
                     meta_ofs = msw.store(meta)
-                    rig.cur.update_from_stat(pst, meta_ofs)
+                    rig.cur.update_from_stat(pst, meta_ofs, tmax)
                     rig.cur.invalidate()
                     need_repack = True
                 if not (rig.cur.flags & index.IX_HASHVALID):
diff --git a/lib/bup/index.py b/lib/bup/index.py
index 6744617..425531f 100644
--- a/lib/bup/index.py
+++ b/lib/bup/index.py
@@ -283,9 +283,12 @@ class Entry:
             return True
         return False
 
-    def update_from_stat(self, st, meta_ofs):
+    def update_from_stat(self, st, meta_ofs, tmax=None):
         # Should only be called when the entry is stale(), and
         # invalidate() should almost certainly be called afterward.
+        # As with new entries, a ctime after tmax isn't trusted, so
+        # that a later change within the resolution of the timestamps
+        # can't be missed.
         # pylint: disable=attribute-defined-outside-init
         self.dev = st.st_dev
         self.ino = st.st_ino
@@ -297,6 +300,8 @@ class Entry:
         self.mode = st.st_mode
         self.flags |= IX_EXISTS
         self.meta_ofs = meta_ofs
+        if tmax is not None and self.ctime > tmax:
+            self.ctime = tmax
         self._fixup()
 
     def _fixup(self):
-- 
2.43.0


From 24ef99462b4e1f38d9470a1f276f1ba8c65e3da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:23 +0000
Subject: [PATCH 23/53] fix: meta: treat an archived path of '..' as risky

Extracting it applied the archived metadata to the parent of the
current directory.
---
 lib/bup/metadata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/bup/metadata.py b/lib/bup/metadata.py
index a2ee808..b49ea03 100644
--- a/lib/bup/metadata.py
+++ b/lib/bup/metadata.py
@@ -157,6 +157,8 @@ def _clean_up_path_for_archive(p):
 def _risky_path(p):
     if p.startswith(b'/'):
         return True
+    if p == b'..':
+        return True
     if p.find(b'/../') != -1:
         return True
     if p.startswith(b'../'):
-- 
2.43.0


From 9c6456e7867b37c1ce054d4608409978e94b9b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:57 +0000
Subject: [PATCH 24/53] fix: meta: don't extract through symlinks

An archive that contained a symlink followed by paths below it (or
other metadata for the same path) could create, overwrite, or change
the attributes of files outside the extraction directory.  Refuse to
follow any symlink when extracting, and never apply ACLs or Linux attrs
to a symlink, since that would affect its target.
---
 lib/bup/metadata.py | 45 +++++++++++++++++++++++++++++++++++++--------
 1 file changed, 37 insertions(+), 8 deletions(-)

diff --git a/lib/bup/metadata.py b/lib/bup/metadata.py
index b49ea03..2f3fbf8 100644
--- a/lib/bup/metadata.py
+++ b/lib/bup/metadata.py
@@ -598,7 +598,8 @@ class Metadata:
         self.posix1e_acl = tuple(acl_rep)
 
     def _apply_posix1e_acl_rec(self, path, restore_numeric_ids=False):
-        if not self.posix1e_acl:
+        # Symlinks don't have ACLs, and apply_acl() would follow one.
+        if not self.posix1e_acl or stat.S_ISLNK(self.mode):
             return
 
         if not apply_acl:
@@ -668,7 +669,8 @@ class Metadata:
     def _apply_linux_attr_rec(self, path,
                               # pylint: disable-next=unused-argument
                               restore_numeric_ids=False):
-        if self.linux_attr:
+        # Symlinks don't have attrs, and set_linux_file_attr() would follow one.
+        if self.linux_attr and not stat.S_ISLNK(self.mode):
             if not set_linux_file_attr:
                 note_error("error: can't restore linuxattrs (no support): %s\n"
                            % path_msg(path))
@@ -1231,6 +1233,29 @@ def display_archive(file, out):
             out.write(b'\n')
 
 
+def _via_symlink(path):
+    """Return true if the system would have to follow a symlink to get
+    to the relative path."""
+    # With a trailing slash, dirname() only drops the slash.
+    path = os.path.dirname(path)
+    while path:
+        if os.path.islink(path):
+            return True
+        path = os.path.dirname(path)
+    return False
+
+
+def _apply_extracted(meta, path, restore_numeric_ids):
+    """Apply meta to the extracted path, unless that would affect the
+    target of some symlink instead, which might be anywhere."""
+    if _via_symlink(path) or \
+       (os.path.islink(path) and not stat.S_ISLNK(meta.mode)):
+        note_error('error: not following symlink to apply metadata:'
+                   f' {path_msg(path)}\n')
+        return
+    meta.apply_to_path(path=path, restore_numeric_ids=restore_numeric_ids)
+
+
 def start_extract(file, create_symlinks=True):
     for meta in _ArchiveIterator(file):
         if not meta: # Hit end record.
@@ -1241,6 +1266,9 @@ def start_extract(file, create_symlinks=True):
         if not xpath:
             note_error(f'error: skipping risky path: {path_msg(meta.path)}\n')
         else:
+            if _via_symlink(xpath):
+                note_error(f'error: not following symlink: {path_msg(xpath)}\n')
+                continue
             meta = deepcopy(meta).thaw()
             meta.path = xpath
             _set_up_path(meta.freeze(), create_symlinks=create_symlinks)
@@ -1260,15 +1288,14 @@ def finish_extract(file, restore_numeric_ids=False):
             else:
                 if verbose:
                     print(path_msg(meta.path), file=sys.stderr)
-                meta.apply_to_path(path=xpath,
-                                   restore_numeric_ids=restore_numeric_ids)
+                _apply_extracted(meta, xpath, restore_numeric_ids)
     all_dirs.sort(key = lambda x : len(x.path), reverse=True)
     for dir in all_dirs:
         # Don't need to check xpath -- won't be in all_dirs if not OK.
         xpath = _clean_up_extract_path(dir.path)
         if verbose:
             print(path_msg(dir.path), file=sys.stderr)
-        dir.apply_to_path(path=xpath, restore_numeric_ids=restore_numeric_ids)
+        _apply_extracted(dir, xpath, restore_numeric_ids)
 
 
 def extract(file, restore_numeric_ids=False, create_symlinks=True):
@@ -1282,6 +1309,9 @@ def extract(file, restore_numeric_ids=False, create_symlinks=True):
         if not xpath:
             note_error(f'error: skipping risky path: {path_msg(meta.path)}\n')
         else:
+            if _via_symlink(xpath):
+                note_error(f'error: not following symlink: {path_msg(xpath)}\n')
+                continue
             meta = deepcopy(meta).thaw()
             meta.path = xpath
             meta.freeze()
@@ -1293,7 +1323,7 @@ def extract(file, restore_numeric_ids=False, create_symlinks=True):
             else:
                 if verbose:
                     print('=', path_msg(meta.path), file=sys.stderr)
-                meta.apply_to_path(restore_numeric_ids=restore_numeric_ids)
+                _apply_extracted(meta, meta.path, restore_numeric_ids)
     all_dirs.sort(key = lambda x : len(x.path), reverse=True)
     for dir in all_dirs:
         # Don't need to check xpath -- won't be in all_dirs if not OK.
@@ -1301,5 +1331,4 @@ def extract(file, restore_numeric_ids=False, create_symlinks=True):
         if verbose:
             print('=', path_msg(xpath), file=sys.stderr)
         # Shouldn't have to check for risky paths here (omitted above).
-        dir.apply_to_path(path=dir.path,
-                          restore_numeric_ids=restore_numeric_ids)
+        _apply_extracted(dir, dir.path, restore_numeric_ids)
-- 
2.43.0


From f3df5a3e30b391ebf309b5dbf2ddc2408313dc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:12 +0000
Subject: [PATCH 25/53] fix: meta: don't crash listing a directory that has no
 default ACL

detailed_bytes() expected a directory's ACLs to always include a
default, but an empty one isn't restored from the encoded metadata.
---
 lib/bup/metadata.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/bup/metadata.py b/lib/bup/metadata.py
index 2f3fbf8..3c7f98a 100644
--- a/lib/bup/metadata.py
+++ b/lib/bup/metadata.py
@@ -1185,7 +1185,8 @@ def detailed_bytes(meta, fields = None):
     if 'posix1e-acl' in fields and meta.posix1e_acl:
         acl = meta.posix1e_acl[0]
         result.append(b'posix1e-acl: ' + acl + b'\n')
-        if stat.S_ISDIR(meta.mode):
+        # An empty default ACL isn't recorded.
+        if stat.S_ISDIR(meta.mode) and len(meta.posix1e_acl) > 2:
             def_acl = meta.posix1e_acl[2]
             result.append(b'posix1e-acl-default: ' + def_acl + b'\n')
     return b'\n'.join(result)
-- 
2.43.0


From fe008324894f8dfe8801ad2309c23fbe80cf67cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:50 +0000
Subject: [PATCH 26/53] fix: meta: ignore ambiguous v1 ACL records instead of
 crashing

_correct_posix1e_v1_delimiters() returns None for ACLs with commas,
which can't be corrected, and Metadata.read() then died with a
TypeError.
---
 lib/bup/metadata.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/bup/metadata.py b/lib/bup/metadata.py
index 3c7f98a..4210078 100644
--- a/lib/bup/metadata.py
+++ b/lib/bup/metadata.py
@@ -595,6 +595,9 @@ class Metadata:
             acl_rep = acl_rep[:2]
         if version == 1:
             acl_rep = self._correct_posix1e_v1_delimiters(acl_rep, self.path)
+            if acl_rep is None:
+                self.posix1e_acl = None
+                return
         self.posix1e_acl = tuple(acl_rep)
 
     def _apply_posix1e_acl_rec(self, path, restore_numeric_ids=False):
-- 
2.43.0


From 784db2fcd7e5e86f364e1beab99c56c1ddd7758c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:08 +0000
Subject: [PATCH 27/53] fix: index: don't exclude the working directory for a
 blank --exclude-from line

resolve_parent(b'') is the current directory, so the existing test for
an empty path never applied, and a blank line excluded whatever
directory bup happened to be run from.
---
 lib/bup/helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/bup/helpers.py b/lib/bup/helpers.py
index b319494..e7edd77 100644
--- a/lib/bup/helpers.py
+++ b/lib/bup/helpers.py
@@ -979,9 +979,9 @@ def parse_excludes(options, fatal: Callable[[str], NoReturn]):
             with f:
                 for exclude_path in f.readlines():
                     # FIXME: perhaps this should be rstrip('\n')
-                    exclude_path = resolve_parent(exclude_path.strip())
+                    exclude_path = exclude_path.strip()
                     if exclude_path:
-                        excluded_paths.append(exclude_path)
+                        excluded_paths.append(resolve_parent(exclude_path))
     return sorted(frozenset(excluded_paths))
 
 
-- 
2.43.0


From 7d2a783a89b48588804183e2359b9f41bf462070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:52 +0000
Subject: [PATCH 28/53] fix: save: go back to choosing the longest strip prefix
 as given

Comparing the lengths of the absolute prefixes changed which one applies
when some are relative (e.g. save --strip "$(pwd)" src/var/lib).
---
 lib/bup/helpers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/bup/helpers.py b/lib/bup/helpers.py
index e7edd77..97d5323 100644
--- a/lib/bup/helpers.py
+++ b/lib/bup/helpers.py
@@ -1067,9 +1067,9 @@ def stripped_path_components(path, strip_prefixes):
     none_or_full_fs_path_to_name).  Assume path startswith('/').
     See thelpers.py for examples."""
     normalized_path = os.path.abspath(path)
-    sorted_strip_prefixes = sorted((os.path.abspath(x) for x in strip_prefixes),
-                                   key=len, reverse=True)
-    for normalized_bp in sorted_strip_prefixes:
+    sorted_strip_prefixes = sorted(strip_prefixes, key=len, reverse=True)
+    for bp in sorted_strip_prefixes:
+        normalized_bp = os.path.abspath(bp)
         if normalized_bp == b'/':
             continue
         if _path_is_in(normalized_path, normalized_bp):
-- 
2.43.0


From 63b6a5dedcc106c5d819578856917e3697d60e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:20 +0000
Subject: [PATCH 29/53] fix: join: don't drop the last byte of an unterminated
 line

linereader() assumed that every line ends with a newline, so, for
example, "printf main | bup join" looked for "mai".
---
 lib/bup/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bup/helpers.py b/lib/bup/helpers.py
index 97d5323..57a3436 100644
--- a/lib/bup/helpers.py
+++ b/lib/bup/helpers.py
@@ -672,7 +672,7 @@ def linereader(f):
         line = f.readline()
         if not line:
             break
-        yield line[:-1]
+        yield line.removesuffix(b'\n')
 
 
 def chunkyreader(f, count = None):
-- 
2.43.0


From 4ecbd12708817dd5805f8a0e28c709aff12843c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:35 +0000
Subject: [PATCH 30/53] fix: protocol: accept a remote IOError with a terminus
 and no message

---
 lib/bup/protocol.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lib/bup/protocol.py b/lib/bup/protocol.py
index 1aadb98..beb9389 100644
--- a/lib/bup/protocol.py
+++ b/lib/bup/protocol.py
@@ -156,13 +156,12 @@ def read_ioerror(port):
         if no is None:
             raise EOFError('EOF while reading IOError errno')
     if 2 & mask:
-        msg = read_bvec(port).decode('utf-8')
+        msg = read_bvec(port)
         if msg is None:
             raise EOFError('EOF while reading IOError message')
+        msg = msg.decode('utf-8')
     if 4 & mask:
-        term = read_resolution(port)
-        if msg is None:
-            raise EOFError('EOF while reading IOError terminus')
+        term = read_resolution(port) # raises EOFError
     return vfs.IOError(errno=no, message=msg, terminus=term)
 
 def _command(fn):
-- 
2.43.0


From 49385294dfdb6aa227f90ca795a5a3d921b2e824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:35 +0000
Subject: [PATCH 31/53] fix: client: don't pass self twice in list_indexes

---
 lib/bup/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bup/client.py b/lib/bup/client.py
index a944f6b..fbe1356 100644
--- a/lib/bup/client.py
+++ b/lib/bup/client.py
@@ -410,7 +410,7 @@ class Client:
                 yield idx, load
 
     def list_indexes(self):
-        for idx, _ in self._list_indexes(self):
+        for idx, _ in self._list_indexes():
             yield idx
 
     def sync_indexes(self):
-- 
2.43.0


From cf41caa3eec37c545fb8b44b451936758f3492b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:35 +0000
Subject: [PATCH 32/53] fix: client: send ref patterns as part of the refs
 request

The extra newline ended the pattern list before it began, and the
patterns were then taken for commands.
---
 lib/bup/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bup/client.py b/lib/bup/client.py
index fbe1356..a979ec5 100644
--- a/lib/bup/client.py
+++ b/lib/bup/client.py
@@ -565,7 +565,7 @@ class Client:
                     raise ClientError('unexpected leftover data ' + repr(detritus))
 
     def refs(self, patterns=None, limit_to_heads=False, limit_to_tags=False):
-        args = b'%d %d\n' % (1 if limit_to_heads else 0,
+        args = b'%d %d' % (1 if limit_to_heads else 0,
                              1 if limit_to_tags else 0)
         with self._line_based_call('refs', args) as call:
             patterns = patterns or tuple()
-- 
2.43.0


From acea0654ba94cd41480e83269418f174fc19be70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:35 +0000
Subject: [PATCH 33/53] fix: server: report a missing object the way the client
 expects

The client raises KeyError for errors that begin with that name.
---
 lib/bup/protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bup/protocol.py b/lib/bup/protocol.py
index beb9389..f414a30 100644
--- a/lib/bup/protocol.py
+++ b/lib/bup/protocol.py
@@ -368,7 +368,7 @@ class Server:
             msg = str(e)
             log(f'server: error: {msg}\n')
             self.conn.write(b'\0\0\0\0')
-            self.conn.error(msg)
+            self.conn.error(f'KeyError: {msg}')
         else:
             self.conn.write(b'\0\0\0\0')
             self.conn.ok()
-- 
2.43.0


From 1f1ab4e45d0ea9fe03c3ca3caaf8ae773c5c8600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:32 +0000
Subject: [PATCH 34/53] fix: vfs: don't take an empty read request for the end
 of the file

---
 lib/bup/vfs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/bup/vfs.py b/lib/bup/vfs.py
index 170d914..3a2d2c3 100644
--- a/lib/bup/vfs.py
+++ b/lib/bup/vfs.py
@@ -281,7 +281,8 @@ class _FileReader:
             self.reader = None
             raise  # our offsets will be all screwed up otherwise
         if not buf:
-            self._size = self.ofs
+            if count != 0:
+                self._size = self.ofs
         else:
             self.ofs += len(buf)
         return buf
-- 
2.43.0


From dd7f37d37a227b20a524bc97346868f408b5662c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:47 +0000
Subject: [PATCH 35/53] fix: vfs: find the metadata of a directory when it is
 chunked

A chunked .bupm sorts as .bupm/, so names like .bupm-x precede it.
---
 lib/bup/vfs.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/bup/vfs.py b/lib/bup/vfs.py
index 3a2d2c3..6027f71 100644
--- a/lib/bup/vfs.py
+++ b/lib/bup/vfs.py
@@ -468,7 +468,7 @@ def tree_data_and_bupm(repo, oid):
     for _, mangled_name, sub_oid in tree_entries(data):
         if mangled_name == b'.bupm':
             return data, sub_oid
-        if mangled_name > b'.bupm':
+        if mangled_name > b'.bupm/': # may be a (chunked) tree
             break
     return data, None
 
@@ -753,7 +753,7 @@ def _find_bupm_oid(entries):
     for _, mangled_name, sub_oid in entries:
         if mangled_name == b'.bupm':
             return sub_oid
-        if mangled_name > b'.bupm':
+        if mangled_name > b'.bupm/': # may be a (chunked) tree
             break
     return None
 
@@ -830,7 +830,7 @@ def tree_items(repo, oid, tree_data, names, *, want_meta=True, repair=False):
                 break
         else:
             split_or_not_known = True
-        if mangled_name > b'.bupm':
+        if mangled_name > b'.bupm/': # may be a (chunked) tree
             break
 
     # When repairing, "." wouldn't be affected by the missing entries
-- 
2.43.0


From 543408e26e2e1eadf3bf7864b1ac00c3945bdf39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:47 +0000
Subject: [PATCH 36/53] fix: vfs: don't miss requested names in trees without
 metadata

Their entries are in git order, where "a.0" precedes a directory or
chunked file named "a".
---
 lib/bup/vfs.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/bup/vfs.py b/lib/bup/vfs.py
index 6027f71..4a5418e 100644
--- a/lib/bup/vfs.py
+++ b/lib/bup/vfs.py
@@ -726,15 +726,16 @@ def _tree_items_except_dot(oid, entries, names=None, bupm=None, *, repair=False)
             return
         remaining -= 1
 
-    # Account for the bupm sort order issue (cf. ordered_tree_entries above)
-    last_name = max(names) if bupm else max(names) + b'/'
+    last_name = max(names)
 
     for name, mangled_name, kind, gitmode, ent_oid in tree_ents:
         if mangled_name == b'.bupm':
             continue
         assert name != b'.'
         if name not in names:
-            if name > last_name:
+            # Without a bupm, entries are in git (mangled name) order
+            # (cf. ordered_tree_entries above)
+            if bupm and name > last_name:
                 break  # given bupm sort order, we're finished
             if (kind == BUP_CHUNKED or not S_ISDIR(gitmode)):
                 if meta_ents is not None: meta_ents.pop()
-- 
2.43.0


From 60443e19648d078305064c905ae8f1294ab79e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:47 +0000
Subject: [PATCH 37/53] fix: tree: keep abbreviated split tree names unique

When one name was a prefix of another, both could be abbreviated to
the same name.
---
 lib/bup/tree.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/bup/tree.py b/lib/bup/tree.py
index 6d2cda8..ddb03ef 100644
--- a/lib/bup/tree.py
+++ b/lib/bup/tree.py
@@ -67,6 +67,7 @@ def _abbreviate_tree_names(names):
                 # (fun for the GC to detect the cycles :-) )
                 level[c] = {None: level}
             level = level[c]
+        level[-1] = None # the end of a name, not a valid char
     outnames = []
     # and abbreviate all the names
     for name in names:
@@ -77,8 +78,9 @@ def _abbreviate_tree_names(names):
         while True:
             # backtrack a level
             level = level[None]
-            # if it has more than a single char & None,
-            # we cannot abbreviate any further
+            # if it has more than a single char & None (i.e. another
+            # char or the end of a name), we cannot abbreviate any
+            # further
             if len(level) > 2:
                 break
             candidate = out[:-1]
-- 
2.43.0


From 01b4ae3028cdd9d4adc854310e4708c2d424d500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:47 +0000
Subject: [PATCH 38/53] fix: vfs: finish resolving a path after an absolute
 symlink

Whatever followed an absolute symlink in a path was ignored, as was a
trailing slash in a symlink target.
---
 lib/bup/vfs.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/lib/bup/vfs.py b/lib/bup/vfs.py
index 4a5418e..8485e71 100644
--- a/lib/bup/vfs.py
+++ b/lib/bup/vfs.py
@@ -1193,14 +1193,12 @@ def _resolve_path(repo, path, parent=None, want_meta=True, follow=True):
                                   % (path, ' relative to %r' % parent if parent else ''),
                                   terminus=tuple(past + [(segment, item)]))
                 target = readlink(repo, item)
-                is_absolute, _, target_future = _decompose_path(target)
+                is_absolute, target_dir, target_future = _decompose_path(target)
                 if is_absolute:
-                    if not target_future:  # path was effectively '/'
-                        return notice_resolution(((b'', _root),))
                     past = [(b'', _root)]
-                    future = target_future
-                else:
-                    future.extend(target_future)
+                if target_dir and not future:
+                    must_be_dir = True
+                future.extend(target_future)
                 hops += 1
 
 def resolve(repo, path, parent=None, want_meta=True, follow=True):
-- 
2.43.0


From 297a5aad32aa6cfa04f155c09c49a55b82f2dff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:05 +0000
Subject: [PATCH 39/53] fix: vfs: allow newlines in the names of split trees

---
 lib/bup/vfs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bup/vfs.py b/lib/bup/vfs.py
index 8485e71..b159fab 100644
--- a/lib/bup/vfs.py
+++ b/lib/bup/vfs.py
@@ -788,7 +788,7 @@ def _split_subtree_items(repo, level, oid, entries, names, want_meta, root=True)
                                             tree_entries(_get_tree_object(repo, sub_oid)),
                                             names, want_meta, False)
 
-_tree_depth_rx = re.compile(br'.*\.([0-9]+)\.bupd')
+_tree_depth_rx = re.compile(br'.*\.([0-9]+)\.bupd', re.DOTALL)
 
 def _parse_tree_depth(mangled_name):
     """Return the tree DEPTH from a mangled_name like foo..DEPTH.bupd,
-- 
2.43.0


From 7017e98cd55a6db9562044fb9b322489c25a023f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:38 +0000
Subject: [PATCH 40/53] fix: vfs: provide the metadata of names requested from
 a split tree

It was omitted unless "." was requested too.
---
 lib/bup/vfs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/bup/vfs.py b/lib/bup/vfs.py
index b159fab..9bbaacf 100644
--- a/lib/bup/vfs.py
+++ b/lib/bup/vfs.py
@@ -862,7 +862,9 @@ def tree_items(repo, oid, tree_data, names, *, want_meta=True, repair=False):
     if not depth:
         yield from _tree_items_except_dot(oid, entries, names, repair=repair)
     else:
-        yield from _split_subtree_items(repo, depth, oid, entries, names, False)
+        # Without a request for ".", didn't look for the top-level bupm
+        yield from _split_subtree_items(repo, depth, oid, entries, names,
+                                        want_meta and not dot_requested)
 
 _save_name_rx = re.compile(br'^\d\d\d\d-\d\d-\d\d-\d{6}(-\d+)?$')
 
-- 
2.43.0


From 57fd949f727f12c148587430f061bbebc8b1aee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:37 +0000
Subject: [PATCH 41/53] fix: git: read the fan-out table of a version 1 pack
 index

struct.unpack() requires a buffer of exactly the size of the format, but
the map is the whole index, so no version 1 index could be opened.
---
 lib/bup/git.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bup/git.py b/lib/bup/git.py
index 8598697..ad8bc22 100644
--- a/lib/bup/git.py
+++ b/lib/bup/git.py
@@ -444,7 +444,7 @@ class PackIdxV1(PackIdx):
         self.idxnames = [self.name]
         self.map = mmap_read(f)
         # Min size for 'L' is 4, which is sufficient for struct's '!I'
-        self.fanout = array('L', struct.unpack('!256I', self.map))
+        self.fanout = array('L', struct.unpack_from('!256I', self.map))
         self.fanout.append(0)  # entry "-1"
         self.nsha = self.fanout[255]
         self.sha_ofs = 256 * 4
-- 
2.43.0


From c5bd80d0a4ac3c27d6b706fa333f6f78a4b9004f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:18 +0000
Subject: [PATCH 42/53] fix: bloom: keep the existing entries when adding to a
 filter

The mode that opens an existing filter is 'wb'; 'w+b' replaced it with
a new one that only covered the added indexes.
---
 lib/bup/cmd/bloom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bup/cmd/bloom.py b/lib/bup/cmd/bloom.py
index c418640..1e09aea 100644
--- a/lib/bup/cmd/bloom.py
+++ b/lib/bup/cmd/bloom.py
@@ -129,7 +129,7 @@ def do_bloom(path, outfilename, k, force):
             else:
                 b, b_tmp = None, b
                 b_tmp.close()
-                b = BloomWriter(outfilename, mode='w+b', expected=add_count)
+                b = BloomWriter(outfilename, mode='wb', expected=add_count)
         if b is None: # Need all idxs to build from scratch
             add += rest
             add_count += rest_count
-- 
2.43.0


From 396932951c93a386799a7981fff950ee9cb1a4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:13 +0000
Subject: [PATCH 43/53] fix: fsck: handle a missing par2

sp is not set when running par2 raises.
---
 lib/bup/cmd/fsck.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/bup/cmd/fsck.py b/lib/bup/cmd/fsck.py
index 496edb3..48702db 100644
--- a/lib/bup/cmd/fsck.py
+++ b/lib/bup/cmd/fsck.py
@@ -48,6 +48,7 @@ def par2_setup():
                  check=False)
     except (FileNotFoundError, NotADirectoryError):
         log('fsck: warning: par2 not found; disabling recovery features.\n')
+        return
     if sp.returncode == 0:
         par2_ok = 1
         return
-- 
2.43.0


From bf8f72dd99d48c6ecf1d4795e94408c26d342c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:13 +0000
Subject: [PATCH 44/53] fix: fsck: report every failure of a parallel job

Combine the final exit statuses the way the other ones are combined (a
repaired pack hid a later failure), and treat a job that was killed by a
signal as a failure (its status shifted by 8 bits is 0).
---
 lib/bup/cmd/fsck.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/lib/bup/cmd/fsck.py b/lib/bup/cmd/fsck.py
index 48702db..93e161f 100644
--- a/lib/bup/cmd/fsck.py
+++ b/lib/bup/cmd/fsck.py
@@ -327,6 +327,13 @@ def merge_exits(pending, new):
     return pending
 
 
+def job_exit(status):
+    """Return the exit value for the given os.wait() status."""
+    if os.WIFEXITED(status):
+        return os.WEXITSTATUS(status)
+    return EXIT_FAILURE
+
+
 def main(argv):
     global opt, par2_ok
 
@@ -385,10 +392,9 @@ def main(argv):
         else:
             while len(outstanding) >= opt.jobs:
                 (pid,nc) = os.wait()
-                nc >>= 8
                 if pid in outstanding:
                     del outstanding[pid]
-                    code = merge_exits(code, nc)
+                    code = merge_exits(code, job_exit(nc))
                     count += 1
             pid = os.fork()
             if pid:  # parent
@@ -404,10 +410,9 @@ def main(argv):
 
     while len(outstanding):
         (pid,nc) = os.wait()
-        nc >>= 8
         if pid in outstanding:
             del outstanding[pid]
-            code = code or nc
+            code = merge_exits(code, job_exit(nc))
             count += 1
         if not opt.verbose:
             progress('fsck (%d/%d)\r' % (count, len(pack_stems)))
-- 
2.43.0


From 757c251180e36828123c92e9ce49de1b46aa5c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:13 +0000
Subject: [PATCH 45/53] fix: fsck: report bad par2 files when a pack was
 repaired

The pending exit status is then EXIT_FALSE, which means there were no
other errors.
---
 lib/bup/cmd/fsck.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lib/bup/cmd/fsck.py b/lib/bup/cmd/fsck.py
index 93e161f..a2857ff 100644
--- a/lib/bup/cmd/fsck.py
+++ b/lib/bup/cmd/fsck.py
@@ -376,8 +376,7 @@ def main(argv):
         base = os.path.basename(stem)
         par2_status = par2_recovery_file_status(stem)
         if par2_status is False:
-            if code == EXIT_SUCCESS:
-                code = EXIT_FAILURE
+            code = merge_exits(code, EXIT_FAILURE)
             continue
         sys.stdout.flush()  # Not sure we still need this, but it'll flush out too
         debug('fsck: checking %r (%s)\n'
@@ -422,7 +421,6 @@ def main(argv):
     # double-check (e.g. for (unlikely) problems with generate tmpdir renames)
     for stem in pack_stems:
         if par2_recovery_file_status(stem) is False:
-            if code == EXIT_SUCCESS:
-                code = EXIT_FAILURE
+            code = merge_exits(code, EXIT_FAILURE)
 
     sys.exit(code)
-- 
2.43.0


From aaf1e1f9c8a9a58c1a6eec7ac520bc66e91b8a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:13 +0000
Subject: [PATCH 46/53] fix: fsck: treat a truncated pack or index as damaged

Seeking before the start of a file shorter than a checksum raised an
OSError, so --quick skipped the remaining packs, and --repair did not
regenerate the index.
---
 lib/bup/cmd/fsck.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/bup/cmd/fsck.py b/lib/bup/cmd/fsck.py
index a2857ff..4b2f163 100644
--- a/lib/bup/cmd/fsck.py
+++ b/lib/bup/cmd/fsck.py
@@ -203,6 +203,8 @@ def trailing_and_actual_checksum(path):
     except FileNotFoundError:
         return None, None
     with f:
+        if os.fstat(f.fileno()).st_size < 20:
+            return f.read(), Sha1().digest()
         f.seek(-20, SEEK_END)
         trailing = f.read(20)
         assert len(trailing) == 20
-- 
2.43.0


From 0625e59ddbe159badb7c7b2c87915693aaa9cc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:13 +0000
Subject: [PATCH 47/53] fix: fsck: verify a pack after repairing it

The par2 data may have been generated for a damaged pack, and then the
pack is still damaged after a successful par2 repair.
---
 lib/bup/cmd/fsck.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/bup/cmd/fsck.py b/lib/bup/cmd/fsck.py
index 4b2f163..6af6a83 100644
--- a/lib/bup/cmd/fsck.py
+++ b/lib/bup/cmd/fsck.py
@@ -263,6 +263,10 @@ def attempt_repair(stem, base, par2_exists, out, *, verbose=False):
             if verbose: out.write(base + b' failed\n')
             return EXIT_FAILURE
         log(f'{path_msg(base)} index-pack succeeded\n')
+    if not git_verify(stem, quick=opt.quick):
+        log(f'{path_msg(base)} is still damaged\n')
+        if verbose: out.write(base + b' failed\n')
+        return EXIT_FAILURE
     if verbose: out.write(base + b' repaired\n')
     # As with grep, test, and --par2-ok, we use 1 for communicating
     # information that's an expected possibility i.e. --repair needed
-- 
2.43.0


From 7e5bbf4bf76ec0db1209a449a4f19a5c490aeea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:15 +0000
Subject: [PATCH 48/53] fix: git: make finished packs durable

Sync the directory the pack and its index have been moved to, not its
parent, so that a reference that is updated next cannot survive a crash
which loses the pack.
---
 lib/bup/git.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bup/git.py b/lib/bup/git.py
index ad8bc22..f8b5584 100644
--- a/lib/bup/git.py
+++ b/lib/bup/git.py
@@ -848,7 +848,7 @@ class LocalPackStore():
                 objdir = os.path.join(self._repo_dir, b'objects')
                 self._tmpdir = err_stack.enter_context(temp_dir(dir=objdir, prefix=b'pack-tmp-'))
                 self._file = err_stack.enter_context(open(self._tmpdir + b'/pack', 'w+b'))
-                self._parentfd = err_stack.enter_context(finalized(os.open(objdir, os.O_RDONLY),
+                self._parentfd = err_stack.enter_context(finalized(os.open(objdir + b'/pack', os.O_RDONLY),
                                                                    os.close))
                 self._file.write(b'PACK\0\0\0\2\0\0\0\0')
                 self._idx = PackIdxV2Writer()
-- 
2.43.0


From d32fae436b9aff6406e3ded95e7f14349eba4e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:15 +0000
Subject: [PATCH 49/53] fix: git: do not finish a pack after a failed write

The pack may then contain part of the object that could not be written,
and it was still published when the writer was closed.
---
 lib/bup/git.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/bup/git.py b/lib/bup/git.py
index f8b5584..eae837f 100644
--- a/lib/bup/git.py
+++ b/lib/bup/git.py
@@ -871,6 +871,7 @@ class LocalPackStore():
         try:
             f.write(oneblob)
         except IOError as e:
+            self.finish_pack(abort=True) # may contain a partial blob
             raise GitError(e) from e
         nw = len(oneblob)
         crc = zlib.crc32(oneblob) & 0xffffffff
-- 
2.43.0


From a1619e55ee197d4a987351feea688ad11cb00984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:15 +0000
Subject: [PATCH 50/53] fix: git: raise GitError when a pack cannot be finished

The pack is lost then, and with it objects that have been handed out as
stored. bup save took an OSError for a problem with the file it was
saving, and went on to save a tree with missing objects.
---
 lib/bup/git.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/bup/git.py b/lib/bup/git.py
index eae837f..592e055 100644
--- a/lib/bup/git.py
+++ b/lib/bup/git.py
@@ -920,11 +920,16 @@ class LocalPackStore():
                 if self._run_midx:
                     auto_midx(os.path.join(self._repo_dir, b'objects/pack'))
                 return nameprefix
+        except OSError as ex:
+            raise GitError(ex) from ex
         finally:
             self._obj_count = 0
             self._objcache = None # last -- some code above depends on it
             if tmpdir:
-                rmtree(tmpdir)
+                try:
+                    rmtree(tmpdir)
+                except OSError as ex:
+                    raise GitError(ex) from ex
 
     def abort(self):
         self._closed = True
-- 
2.43.0


From 22496ca78501e34271ce92355679fce00ab92c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:50 +0000
Subject: [PATCH 51/53] fix: git: flush the end of a pack index before syncing
 it

The checksum was still buffered, so that it was only written after the
fsync.
---
 lib/bup/git.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/bup/git.py b/lib/bup/git.py
index 592e055..5776bdc 100644
--- a/lib/bup/git.py
+++ b/lib/bup/git.py
@@ -1084,6 +1084,7 @@ class PackIdxV2Writer:
             for b in chunkyreader(idx_f):
                 idx_sum.update(b)
             idx_f.write(idx_sum.digest())
+            idx_f.flush()
             fsync(idx_f.fileno())
 
 
-- 
2.43.0


From 9d0ba676841c1c1c249382a4280046926f9b2d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:10 +0000
Subject: [PATCH 52/53] fix: git: forget a pack that could not be opened

The writer kept the closed file and descriptor, closed the descriptor
again later, and failed to remove the temporary directory which was
already gone.
---
 lib/bup/git.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/lib/bup/git.py b/lib/bup/git.py
index 5776bdc..192301a 100644
--- a/lib/bup/git.py
+++ b/lib/bup/git.py
@@ -846,12 +846,13 @@ class LocalPackStore():
         if not self._file:
             with ExitStack() as err_stack:
                 objdir = os.path.join(self._repo_dir, b'objects')
-                self._tmpdir = err_stack.enter_context(temp_dir(dir=objdir, prefix=b'pack-tmp-'))
-                self._file = err_stack.enter_context(open(self._tmpdir + b'/pack', 'w+b'))
-                self._parentfd = err_stack.enter_context(finalized(os.open(objdir + b'/pack', os.O_RDONLY),
-                                                                   os.close))
-                self._file.write(b'PACK\0\0\0\2\0\0\0\0')
+                tmpdir = err_stack.enter_context(temp_dir(dir=objdir, prefix=b'pack-tmp-'))
+                f = err_stack.enter_context(open(tmpdir + b'/pack', 'w+b'))
+                pfd = err_stack.enter_context(finalized(os.open(objdir + b'/pack', os.O_RDONLY),
+                                                        os.close))
+                f.write(b'PACK\0\0\0\2\0\0\0\0')
                 self._idx = PackIdxV2Writer()
+                self._tmpdir, self._file, self._parentfd = tmpdir, f, pfd
                 err_stack.pop_all()
 
     def _update_idx(self, sha, crc, size):
-- 
2.43.0


From 66c128d75235572ac4935df3feb509a04ce951ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:05 +0000
Subject: [PATCH 53/53] fix: client: don't request cached indexes again

When the server asks for indexes to be loaded, only the ones that are
not in the cache are needed, and sync_index() refuses to fetch others, so
that nothing could be saved to such a repository a second time.
---
 lib/bup/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bup/client.py b/lib/bup/client.py
index a979ec5..d05ba29 100644
--- a/lib/bup/client.py
+++ b/lib/bup/client.py
@@ -423,7 +423,7 @@ class Client:
                 extra.add(f)
         needed = set()
         for idx, load in self._list_indexes():
-            if load:
+            if load and idx not in extra:
                 # If the server requests that we load an idx and we don't
                 # already have a copy of it, it is needed
                 needed.add(idx)
-- 
2.43.0

