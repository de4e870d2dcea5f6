From 55f4be4ae278b69b58582708486664870c8798d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:01 +0000
Subject: [PATCH 01/17] fix: nav clock times with any number of
 fractional-second digits

The fraction was read as an integer and multiplied by 1e4, which is right
only for two significant digits: .50 became .05 s and .125 raised ValueError.
---
 shipgrav/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index 4d16fab..0b4b234 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -167,8 +167,8 @@ def _clock_time(allnav, talker):
         hour[i] = int(post[0][:2])   # hour
         mint[i] = int(post[0][2:4])  # min
         sec0 = float(post[0][4:])  # sec.msec
-        msec[i] = int(int(str(sec0).split('.')[-1])*1e4)  # msec
-        sec[i] = int(str(sec0).split('.')[0])  # sec
+        sec[i] = int(sec0)  # sec
+        msec[i] = int(round((sec0 - sec[i])*1e6))  # microseconds
 
     return hour, mint, sec, msec
 
-- 
2.43.0


From 26538c8751deb03db8d82303f2115641fe13e541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:01 +0000
Subject: [PATCH 02/17] fix: antimeridian unwrapping edits a copy and assigns
 it back

The longitude values of a DataFrame are read-only under pandas copy-on-write,
so every track crossing 180 degrees raised ValueError; the final replace()
was a no-op that only worked because the values had been edited in place.
---
 shipgrav/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index 0b4b234..2bfa0f0 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -355,7 +355,7 @@ def _clean_180cross(gps_nav):
     lpos = gps_nav['lon'].values > 0
     lneg = gps_nav['lon'].values < 0
 
-    newlon = gps_nav['lon'].values
+    newlon = gps_nav['lon'].to_numpy(copy=True)
 
     if sum(lpos) > sum(lneg):
         newlon[lneg] = 180 + newlon[lneg] % 180
@@ -371,7 +371,7 @@ def _clean_180cross(gps_nav):
             # ad hoc duplication, not great
             newlon[i+1] = (newlon[i] + newlon[i+2])/2
 
-    gps_nav = gps_nav.replace({'lon': newlon})
+    gps_nav = gps_nav.assign(lon=newlon)
 
     return gps_nav
 
-- 
2.43.0


From 70bc800ca4fb57e719aa2c21568d67a6d11d5507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:01 +0000
Subject: [PATCH 03/17] fix: read the last line of a feed file too

The loop stopped when the file position reached the end, before looking at
the line it had just read.
---
 shipgrav/io.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index 2bfa0f0..01e32ca 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -822,12 +822,11 @@ def read_other_stuff(yaml_file, data_file, tag):
     # checks done, read in all the lines for this feed
     lines = []
     s.seek(0)
-    # get line, bytes->string, strip \r\n from end
-    ln = s.readline().decode('ascii').rstrip()
-    while s.tell() < s.size():  # when s.tell() == s.size(), we got to the end of the file
+    for raw in iter(s.readline, b''):  # an empty read means we got to the end of the file
+        # bytes->string, strip \r\n from end
+        ln = raw.decode('ascii').rstrip()
         if tag in ln:
             lines.append(ln)
-        ln = s.readline().decode('ascii').rstrip()  # next!
 
     # split the lines at the tag, and then after the tag (fields named in yaml are post-tag)
     # split into pre-tag (might be '') and post-tag
-- 
2.43.0


From 2ab6fd7ae17b95a640164dcd346569f9dca7d6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:01 +0000
Subject: [PATCH 04/17] fix: tide hour is taken in UTC whatever the time zone
 of the timestamp

The century term used the instant but the hour term used the local clock,
so the same instant gave different tides in different time zones.
---
 shipgrav/grav.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shipgrav/grav.py b/shipgrav/grav.py
index 7cc7ec9..528d0d0 100644
--- a/shipgrav/grav.py
+++ b/shipgrav/grav.py
@@ -33,8 +33,8 @@ def _convert_datetime_tidetime(timestamp):
     dt = timestamp - origin_time
     days = dt.days + dt.seconds/3600./24.
     julian_century = days/36525
-    julian_hour = (timestamp.hour + timestamp.minute /
-                   60. + timestamp.second/3600.)
+    utc = timestamp.astimezone(timezone.utc)
+    julian_hour = utc.hour + utc.minute/60. + utc.second/3600.
 
     return julian_century, julian_hour
 
-- 
2.43.0


From 88e83b855d12edffbce772b4038d3d099652a9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:01 +0000
Subject: [PATCH 05/17] fix: cross-coupling fit uses the segment after the last
 time gap

With gaps in the timestamps the last continuous segment was dropped
altogether, and every other segment lost its last sample.
---
 shipgrav/grav.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/shipgrav/grav.py b/shipgrav/grav.py
index 528d0d0..a50080b 100644
--- a/shipgrav/grav.py
+++ b/shipgrav/grav.py
@@ -371,9 +371,10 @@ def calc_cross_coupling_coefficients(faa_in, vcc_in, ve_in, al_in, ax_in, level_
         tdiff = np.diff(times)
         if np.any(tdiff > 5*samplerate):
             # 5 sec gap doesn't matter much I hope???
-            end_inds = np.where(tdiff > 5*samplerate)[0]
+            end_inds = np.append(
+                np.where(tdiff > 5*samplerate)[0] + 1, len(faa_in))
 
-    end_inds = np.append(-1, end_inds)  # add starting point
+    end_inds = np.append(0, end_inds)  # add starting point
 
     faa_tf = np.array([])
     vcc_tf = np.array([])
@@ -383,12 +384,12 @@ def calc_cross_coupling_coefficients(faa_in, vcc_in, ve_in, al_in, ax_in, level_
     le_tf = np.array([])  # things to fit
 
     for i in range(1, len(end_inds)):  # loop continuous-time segments
-        faa = faa_in[end_inds[i-1]+1:end_inds[i]]
-        vcc = vcc_in[end_inds[i-1]+1:end_inds[i]]
-        ve = ve_in[end_inds[i-1]+1:end_inds[i]]
-        al = al_in[end_inds[i-1]+1:end_inds[i]]
-        ax = ax_in[end_inds[i-1]+1:end_inds[i]]
-        level = level_in[end_inds[i-1]+1:end_inds[i]]
+        faa = faa_in[end_inds[i-1]:end_inds[i]]
+        vcc = vcc_in[end_inds[i-1]:end_inds[i]]
+        ve = ve_in[end_inds[i-1]:end_inds[i]]
+        al = al_in[end_inds[i-1]:end_inds[i]]
+        ax = ax_in[end_inds[i-1]:end_inds[i]]
+        level = level_in[end_inds[i-1]:end_inds[i]]
         if len(faa) < 1000:
             continue  # no point for very short segments
         # double derivatives with taylor series
-- 
2.43.0


From 029a3a93b8290cb4dc0bfa84fc895645087bc4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:01 +0000
Subject: [PATCH 06/17] fix: 1D Parker wavenumbers for profiles with an odd
 number of points

The negative-frequency half was shifted by one bin when the padded length is odd.
---
 shipgrav/grav.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/shipgrav/grav.py b/shipgrav/grav.py
index a50080b..b831971 100644
--- a/shipgrav/grav.py
+++ b/shipgrav/grav.py
@@ -658,14 +658,10 @@ def grav1d_padded(xtopo, topo, zlev, rho):
     # padtopo = np.append(baselev*wing,np.append(topo,baselev*wing))
     # padtopo = np.append(topo,topo[::-1])
     nxt = len(padtopo)
-    mfx = (nxt/2.) + 1
 
     k = (2*np.pi)/(nxt*dx)  # calculate wavenumbers
-    k2 = k**2
-    xi1 = np.arange(1, mfx+1)
-    xi = np.append(xi1, xi1[-2:0:-1])
-    xxk = (xi-1)*(xi-1)*k2
-    kwn1 = np.sqrt(xxk[:nxt])
+    xi = np.arange(nxt)
+    kwn1 = k*np.minimum(xi, nxt-xi)
 
     Ftopo = np.fft.fft(padtopo)  # Fourier transform the topography
     Ftopo[0] = 0
-- 
2.43.0


From 02571ae3bf7d83cf1c34ecfb95573dca5a185a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:01 +0000
Subject: [PATCH 07/17] fix: 1D Parker series expands relief about the mean
 depth

The upward continuation is from the mean depth, so the relief in the powers
must be measured from it too (Parker 1972, eq. 4; as grav2d_folding does).
With absolute depths, 10 m of relief with 10 km wavelength at 3000 m depth
(density contrast 1700) gave an oscillation of 0.039 mGal in the middle of the
profile; the exact value is 0.108 mGal, and it is 0.107 with this change.
---
 shipgrav/grav.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/shipgrav/grav.py b/shipgrav/grav.py
index b831971..345c171 100644
--- a/shipgrav/grav.py
+++ b/shipgrav/grav.py
@@ -657,6 +657,7 @@ def grav1d_padded(xtopo, topo, zlev, rho):
     padtopo = np.append(topo[0]*wing, np.append(topo, topo[-1]*wing))
     # padtopo = np.append(baselev*wing,np.append(topo,baselev*wing))
     # padtopo = np.append(topo,topo[::-1])
+    padtopo = padtopo - baselev  # relief about the reference level
     nxt = len(padtopo)
 
     k = (2*np.pi)/(nxt*dx)  # calculate wavenumbers
-- 
2.43.0


From ab1c3319f9242b3fff86bfbdb79b46fe994a5bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:01 +0000
Subject: [PATCH 08/17] fix: 2D Parker wavenumbers for unfolded grids with odd
 dimensions

The mirrored half was one element short, so any unfolded grid with an odd
number of rows or columns raised ValueError.
---
 shipgrav/grav.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shipgrav/grav.py b/shipgrav/grav.py
index 345c171..ce2bfd3 100644
--- a/shipgrav/grav.py
+++ b/shipgrav/grav.py
@@ -764,11 +764,11 @@ def grav2d_folding(X, Y, Z, dx, dy, drho=0.6, dz=6000, ifold=True, npower=5):
 
     # wavenumbers:
     yj1 = np.arange(1, mfy+1)
-    yj = np.append(yj1, yj1[mfy-2:0:-1])
+    yj = np.append(yj1, yj1[nyt-mfy:0:-1])
     yyk = (yj-1)*(yj-1)*ky2
 
     xi1 = np.arange(1, mfx+1)
-    xi = np.append(xi1, xi1[mfx-2:0:-1])
+    xi = np.append(xi1, xi1[nxt-mfx:0:-1])
     xxk = (xi-1)*(xi-1)*kx2
 
     kwn1 = np.zeros((nxt, nyt))
-- 
2.43.0


From be05bd2829f82896ebf2f74a320c7d5703bb4402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:01 +0000
Subject: [PATCH 09/17] fix: crustal thickness wavenumbers start at zero

The 1-based wavenumber formula was used with 0-based indices, so the mean got
the first harmonic's wavenumber, every other bin was off by one and the
result was not real.
---
 shipgrav/grav.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/shipgrav/grav.py b/shipgrav/grav.py
index ce2bfd3..033f2e4 100644
--- a/shipgrav/grav.py
+++ b/shipgrav/grav.py
@@ -1202,15 +1202,15 @@ def crustal_thickness_2D(ur, nx=1000, ny=1, dx=1.3, dy=0, zdown=10, rho=0.4,
 
     kwn1 = np.zeros((nx, ny))  # compute wavenumbers in 2D
     for j in range(ny):
-        yj = j
-        if j > mfy:
-            yj = mfy*2 - j
+        yj = j + 1
+        if yj > mfy:
+            yj = mfy*2 - yj
         yyk = kint2**2 * (yj-1)**2
 
         for i in range(nx):
-            xi = i
-            if i > mfx:
-                xi = mfx*2 - i
+            xi = i + 1
+            if xi > mfx:
+                xi = mfx*2 - xi
             xxk = kint1**2 * (xi-1)**2
 
             kwn1[i, j] = np.sqrt(xxk + yyk)
-- 
2.43.0


From 10db56e01d113eb27b33963d415f5910b765142c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:01 +0000
Subject: [PATCH 10/17] fix: right click with no picked points does nothing

pop() on the empty lists raised IndexError in the event handler.
---
 shipgrav/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shipgrav/utils.py b/shipgrav/utils.py
index 46b5322..f2ba248 100644
--- a/shipgrav/utils.py
+++ b/shipgrav/utils.py
@@ -269,7 +269,7 @@ class _SnappingCursor:
             self.i_seg.append(ind_x)
             self.scatters[0].update({'xdata': self.x_seg, 'ydata': self.y_seg})
 
-        if event.button == 3:  # pop the last element of the lists
+        if event.button == 3 and self.i_seg:  # pop the last element of the lists
             self.x_seg.pop()
             self.y_seg.pop()
             self.i_seg.pop()
-- 
2.43.0


From d7a8009454f5a61ecac698a602b4be420018ff95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:01 +0000
Subject: [PATCH 11/17] fix: keep ini values that contain an equals sign

A bare text value was cut at its first '='.
---
 shipgrav/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shipgrav/utils.py b/shipgrav/utils.py
index f2ba248..9e4bd83 100644
--- a/shipgrav/utils.py
+++ b/shipgrav/utils.py
@@ -146,7 +146,7 @@ def clean_ini_to_toml(ini_file):
             fo.write('\n')
             continue
 
-        val = ln.split('=')[1]  # get value from key=value pair
+        val = ln.split('=', 1)[1]  # get value from key=value pair
         extra_comm = ''
         if '#' in val:
             val = val.split('#')[0]
-- 
2.43.0


From 2af62a0e7a0244ae9785bd1a27d2f39a325e9760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:44 +0000
Subject: [PATCH 12/17] fix: only boolean values are lower-cased and quoted
 text is kept when converting ini

---
 shipgrav/utils.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/shipgrav/utils.py b/shipgrav/utils.py
index 9e4bd83..a8dd2e9 100644
--- a/shipgrav/utils.py
+++ b/shipgrav/utils.py
@@ -121,15 +121,11 @@ def clean_ini_to_toml(ini_file):
     with open(ini_file, 'r') as file:
         text = file.read()  # just read the whole thing
 
-    # fix comments (// to #)
-    text = re.sub('//', '#', text)
+    # fix comments (// to #), leaving quoted strings alone
+    text = re.sub(r'("[^"\n]*")|//', lambda m: m.group(1) or '#', text)
 
-    # clean out tabs
-    text = re.sub('\t', '  ', text)
-
-    # fix TRUE and FALSE
-    text = re.sub('TRUE', 'true', text)
-    text = re.sub('FALSE', 'false', text)
+    # clean out tabs, leaving quoted strings alone
+    text = re.sub(r'("[^"\n]*")|\t', lambda m: m.group(1) or '  ', text)
 
     text = re.sub('$', '', text)
 
@@ -153,6 +149,12 @@ def clean_ini_to_toml(ini_file):
             extra_comm = '='.join(val.split('#')[1:])
         val = val.strip()
 
+        if val == 'TRUE' or val == 'FALSE':  # fix TRUE and FALSE
+            key, rest = ln.split('=', 1)
+            ln = '='.join((key, rest.replace(val, val.lower(), 1)))
+            fo.write(ln)
+            fo.write('\n')
+            continue
         if val == 'true' or val == 'false':  # skip bools
             fo.write(ln)
             fo.write('\n')
-- 
2.43.0


From 0511af6de68a683e586065d32d2d95dcdf46942b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:45 +0000
Subject: [PATCH 13/17] fix: Ride and Sikuliaq fix times no longer lose a
 microsecond

---
 shipgrav/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index 01e32ca..2deb9d7 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -300,7 +300,7 @@ def _navdate_Ride(allnav, talker):
             hour = int(date[3])
             mint = int(date[4])
             sec = int(date[5])
-            msec = int(float('.'+date[6])*1e6)
+            msec = int(round(float('.'+date[6])*1e6))
             timest[i] = datetime(year, mon, day, hour, mint,
                                  sec, msec, tzinfo=timezone.utc)
     return timest
-- 
2.43.0


From 8340313e491b35c5550aaa11e3ed1ca0cbf68a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:09 +0000
Subject: [PATCH 14/17] fix: a feed sentence starts with its tag and a comma,
 so a blank first field keeps its place and lines that only mention the tag
 are not read

---
 shipgrav/io.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index 2deb9d7..efbbd78 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -804,7 +804,7 @@ def read_other_stuff(yaml_file, data_file, tag):
 
     if tag.startswith('$'):
         tag = tag[1:]
-    dtag = '$' + tag
+    dtag = '$' + tag + ','  # start of a sentence, up to its first field
 
     # read yaml, check that tag specs are in this file
     with open(yaml_file, 'r') as f:
@@ -816,7 +816,7 @@ def read_other_stuff(yaml_file, data_file, tag):
     # check to make sure tag appears in the data file
     with open(data_file, 'rb') as file:
         s = mmap.mmap(file.fileno(), 0, access=mmap.ACCESS_READ)
-        result = s.find(bytes(tag, 'ascii'))
+        result = s.find(bytes(dtag, 'ascii'))
     assert result != -1, '%s not in data file %s' % (tag, data_file)
 
     # checks done, read in all the lines for this feed
@@ -825,14 +825,14 @@ def read_other_stuff(yaml_file, data_file, tag):
     for raw in iter(s.readline, b''):  # an empty read means we got to the end of the file
         # bytes->string, strip \r\n from end
         ln = raw.decode('ascii').rstrip()
-        if tag in ln:
+        if dtag in ln:
             lines.append(ln)
 
     # split the lines at the tag, and then after the tag (fields named in yaml are post-tag)
     # split into pre-tag (might be '') and post-tag
     tagsplit = [e.split(dtag) for e in lines]
     # tagjoin = [','.join(tagsplit[i][0].strip(),tagsplit[i][1].strip(',')) for i in range(len(tagsplit))]
-    named_fields = [tagsplit[i][1].strip(',').split(
+    named_fields = [tagsplit[i][1].rstrip(',').split(
         ',') for i in range(len(tagsplit))]
 
     # make a dataframe, using yaml and including any timestamp-like info that might be before the tag
-- 
2.43.0


From 1a350d692350c7958c84130cb25c93360c38e8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:09 +0000
Subject: [PATCH 15/17] fix: blank fields at the end of every feed sentence are
 kept

---
 shipgrav/io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index efbbd78..3ca0bae 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -839,6 +839,8 @@ def read_other_stuff(yaml_file, data_file, tag):
     # Note that the format of the lines we're working with is usually some variation on:
     # [date/timestamp, maybe], $TAG, comma, separated, fields, listed, in, yaml
     colnames = re.sub('{|}', '', ym['format'][tag]).split(',')[1:]
+    # blank fields at the end are still fields
+    named_fields = [e + ['']*(len(colnames) - len(e)) for e in named_fields]
     df = pd.DataFrame(named_fields, columns=colnames)
     df['mystery'] = [tagsplit[i][0]
                      for i in range(len(tagsplit))]  # any pre-tag stuff
-- 
2.43.0


From 3fb4667970fee8454f73495b8e5f79daa24ce849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:51 +0000
Subject: [PATCH 16/17] fix: clean_ini_to_toml raised IndexError on blank lines
 of spaces or tabs and on indented comments and sections

---
 shipgrav/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shipgrav/utils.py b/shipgrav/utils.py
index a8dd2e9..50ba2f9 100644
--- a/shipgrav/utils.py
+++ b/shipgrav/utils.py
@@ -137,7 +137,8 @@ def clean_ini_to_toml(ini_file):
         if ln.startswith('$'):
             ln = re.sub(r'\$', '', ln)  # clean out $ for talkers
 
-        if ln.startswith('[') or ln.startswith('#') or ln == '':
+        bare = ln.strip()
+        if bare.startswith('[') or bare.startswith('#') or bare == '':
             fo.write(ln)
             fo.write('\n')
             continue
-- 
2.43.0


From 61095be0b9755e917754ae5f6ef4e727e82a49d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:53 +0000
Subject: [PATCH 17/17] fix: 1D Parker gravity used negative wavenumbers for
 profiles listed in descending x

---
 shipgrav/grav.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shipgrav/grav.py b/shipgrav/grav.py
index 033f2e4..f069fe2 100644
--- a/shipgrav/grav.py
+++ b/shipgrav/grav.py
@@ -648,7 +648,7 @@ def grav1d_padded(xtopo, topo, zlev, rho):
     baselev = np.mean(topo)  # mean topography for baseline
 
     # spacing of coordinates, must be constant
-    dx = (xtopo[-1]-xtopo[0])/(len(xtopo)-1)
+    dx = abs(xtopo[-1]-xtopo[0])/(len(xtopo)-1)  # of either direction
     nx = len(xtopo)
 
     wing = np.ones(2*len(topo))  # *** extra padding
-- 
2.43.0

