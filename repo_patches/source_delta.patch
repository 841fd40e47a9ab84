From b23a0e622f2e96db6039f27d6e264131b6cc6367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:08 +0000
Subject: [PATCH 01/77] fix: compare UTC minutes with UTC minutes in
 LocalTime::operator<

The minutes of one time (converted to UTC) were compared with the
unconverted minutes of the other, so times in zones with a fractional
hour offset could be put in the wrong order.
---
 src/local_time.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/local_time.cc b/src/local_time.cc
index d22e07a..0fcc115 100644
--- a/src/local_time.cc
+++ b/src/local_time.cc
@@ -312,7 +312,7 @@ LocalTime::operator< (LocalTime const & other) const
 		return a.hour() < b.hour();
 	}
 	if (a.minute() != b.minute()) {
-		return a.minute() < other.minute();
+		return a.minute() < b.minute();
 	}
 	if (a.second() != b.second()) {
 		return a.second() < b.second();
-- 
2.43.0


From ee5ea535bdfdad3450f1d8a69f5c4697f275d7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:08 +0000
Subject: [PATCH 02/77] fix: write the sign of UTC offsets between -01:00 and
 00:00

An offset of -00:30 was written as +00:30.
---
 src/local_time.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/local_time.cc b/src/local_time.cc
index 0fcc115..2308693 100644
--- a/src/local_time.cc
+++ b/src/local_time.cc
@@ -200,7 +200,7 @@ LocalTime::as_string(bool with_millisecond, bool with_timezone) const
 	if (with_timezone) {
 		snprintf(
 			buffer + written, sizeof(buffer) - written,
-			"%s%02d:%02d", (_offset.hour() >= 0 ? "+" : "-"), abs(_offset.hour()), abs(_offset.minute())
+			"%s%02d:%02d", ((_offset.hour() < 0 || _offset.minute() < 0) ? "-" : "+"), abs(_offset.hour()), abs(_offset.minute())
 			);
 	}
 	return buffer;
-- 
2.43.0


From e5f3333525c0f22ff0450b021b032dad1ad0df5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:08 +0000
Subject: [PATCH 03/77] fix: parse fractional seconds of any length in
 LocalTime

A fraction of fewer than three digits was taken as a number of
milliseconds (so .5 was 5ms) and one such fraction followed by Z was
refused.
---
 src/local_time.cc | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/local_time.cc b/src/local_time.cc
index 2308693..47872aa 100644
--- a/src/local_time.cc
+++ b/src/local_time.cc
@@ -150,15 +150,16 @@ LocalTime::LocalTime (string s)
 
 	/* Fractional seconds */
 	if (s.length() > pos && s[pos] == '.') {
-		auto end = s.find('+', pos);
-		if (end == std::string::npos) {
-			end = s.find('-', pos);
-		}
+		auto end = s.find_first_not_of("0123456789", pos + 1);
 		if (end == std::string::npos) {
 			end = s.length();
 		}
-		auto const length = end - pos;
-		_millisecond = lexical_cast<int>(s.substr(pos + 1, std::min(static_cast<size_t>(3), length - 1)));
+		if (end == pos + 1) {
+			throw TimeFormatError(s);
+		}
+		auto milliseconds = s.substr(pos + 1, std::min(static_cast<size_t>(3), end - pos - 1));
+		milliseconds.resize(3, '0');
+		_millisecond = lexical_cast<int>(milliseconds);
 		pos = end;
 	} else {
 		_millisecond = 0;
-- 
2.43.0


From 7cf12b99af7f59d45e84a692261c90e331833548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:08 +0000
Subject: [PATCH 04/77] fix: refuse times with text after the Z

Anything which followed the Z of a UTC time was ignored.
---
 src/local_time.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/local_time.cc b/src/local_time.cc
index 47872aa..7eb7b4a 100644
--- a/src/local_time.cc
+++ b/src/local_time.cc
@@ -166,7 +166,7 @@ LocalTime::LocalTime (string s)
 	}
 
 	/* Timezone */
-	if (pos != s.length() && s[pos] != 'Z') {
+	if (pos != s.length() && s.substr(pos) != "Z") {
 		if (s[pos] != '+' && s[pos] != '-') {
 			throw TimeFormatError(s);
 		}
-- 
2.43.0


From ead14f6e6be51012068ec9e465ab6e98938b049a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:08 +0000
Subject: [PATCH 05/77] fix: check for the colon in the zone of a time

A time zone such as +04x00 was accepted.
---
 src/local_time.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/local_time.cc b/src/local_time.cc
index 7eb7b4a..b7cccd6 100644
--- a/src/local_time.cc
+++ b/src/local_time.cc
@@ -170,7 +170,7 @@ LocalTime::LocalTime (string s)
 		if (s[pos] != '+' && s[pos] != '-') {
 			throw TimeFormatError(s);
 		}
-		if ((s.length() - pos) != 6) {
+		if ((s.length() - pos) != 6 || s[pos + 3] != ':') {
 			throw TimeFormatError(s);
 		}
 
-- 
2.43.0


From 482a5b561d934d5fe15fc381ec2ed2c69af27939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:08 +0000
Subject: [PATCH 06/77] fix: allow UTC offsets up to 14 hours

xs:dateTime allows offsets from -14:00 to +14:00 and some places use
+13:00 or +14:00, but we failed an assertion on reading such a time.
---
 src/utc_offset.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utc_offset.cc b/src/utc_offset.cc
index 8d4870d..f86058f 100644
--- a/src/utc_offset.cc
+++ b/src/utc_offset.cc
@@ -42,7 +42,7 @@ using namespace dcp;
 void
 UTCOffset::set_hour(int hour)
 {
-	DCP_ASSERT(hour >= -11 && hour <= 12);
+	DCP_ASSERT(hour >= -14 && hour <= 14);
 	_hour = hour;
 }
 
-- 
2.43.0


From 05815d2a89440d70ded18251ee2bc7fef8f5254d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:08 +0000
Subject: [PATCH 07/77] fix: take the UTC offset into account in
 LocalTime::as_time_t

Two equal times in different zones gave different results.
---
 src/local_time.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/local_time.cc b/src/local_time.cc
index b7cccd6..d8e098a 100644
--- a/src/local_time.cc
+++ b/src/local_time.cc
@@ -425,7 +425,8 @@ LocalTime::as_time_t() const
 {
 	DCP_ASSERT(_year >= 1970);
 
-	auto const since_epoch = boost::gregorian::date(_year, _month, _day) - boost::gregorian::date(1970, boost::gregorian::Jan, 1);
-	return ((((static_cast<time_t>(since_epoch.days()) * 24) + _hour) * 60) + _minute) * 60 + _second;
+	auto const utc = as_utc();
+	auto const since_epoch = boost::gregorian::date(utc.year(), utc.month(), utc.day()) - boost::gregorian::date(1970, boost::gregorian::Jan, 1);
+	return ((((static_cast<time_t>(since_epoch.days()) * 24) + utc.hour()) * 60) + utc.minute()) * 60 + utc.second();
 }
 
-- 
2.43.0


From 5df20de0ac7849ccce8fe57abb578ae7644711db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:28:38 +0000
Subject: [PATCH 08/77] fix: use the requested range in S-Log3 to linear tables

The logarithmic part of the curve was given the position in the table rather
than the value at that position, so it was wrong for any table whose range
is not 0 to 1.
---
 src/s_gamut3_transfer_function.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/s_gamut3_transfer_function.cc b/src/s_gamut3_transfer_function.cc
index 831fcb5..5f5d0d0 100644
--- a/src/s_gamut3_transfer_function.cc
+++ b/src/s_gamut3_transfer_function.cc
@@ -68,7 +68,7 @@ SGamut3TransferFunction::make_double_lut(double from, double to, int bit_depth,
 			auto const p = static_cast<double>(i) / (bit_length - 1);
 			auto const q = (p * (to - from)) + from;
 			if (q >= (171.2102946929 / 1023)) {
-				lut[i] = pow(10, ((p * 1023 - 420) / 261.5)) * (0.18 + 0.01) - 0.01;
+				lut[i] = pow(10, ((q * 1023 - 420) / 261.5)) * (0.18 + 0.01) - 0.01;
 			} else {
 				lut[i] = (q * 1023 - 95) * 0.01125000 / (171.2102946929 - 95);
 			}
-- 
2.43.0


From c75a2050b0a5c9426e05c221d621d75e1b3fb6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:28:38 +0000
Subject: [PATCH 09/77] fix: put the linear to S-Log3 breakpoint in the right
 place

The linear part of the curve goes up to a linear value of 0.01125, not
0.01125 / 1023, so dark values did not survive a round trip.
---
 src/s_gamut3_transfer_function.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/s_gamut3_transfer_function.cc b/src/s_gamut3_transfer_function.cc
index 5f5d0d0..bbe4e57 100644
--- a/src/s_gamut3_transfer_function.cc
+++ b/src/s_gamut3_transfer_function.cc
@@ -57,7 +57,7 @@ SGamut3TransferFunction::make_double_lut(double from, double to, int bit_depth,
 		for (int i = 0; i < bit_length; ++i) {
 			auto const p = static_cast<double>(i) / (bit_length - 1);
 			auto const q = (p * (to - from)) + from;
-			if (q >= (0.01125 / 1023)) {
+			if (q >= 0.01125) {
 				lut[i] = (420 + log10((q + 0.01) / (0.18 + 0.01)) * 261.5) / 1023;
 			} else {
 				lut[i] = (q * (171.2102946929 - 95) / 0.01125000 + 95) / 1023;
-- 
2.43.0


From a08230a8f63aee6c5ad8ce565aaab7b626702b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:28:38 +0000
Subject: [PATCH 10/77] fix: don't ignore assignment of one open File to
 another

The check for self-assignment compared whether the two Files were open,
so it left both alone if they were both open (or both closed).
---
 src/file.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file.cc b/src/file.cc
index cb7088b..0f8b80f 100644
--- a/src/file.cc
+++ b/src/file.cc
@@ -82,7 +82,7 @@ File::File(File&& other)
 File&
 File::operator=(File&& other)
 {
-	if (*this != other) {
+	if (this != &other) {
 		close();
 		_file = other._file;
 		_open_error = other._open_error;
-- 
2.43.0


From c12d42a4f87594297909772bdde637a360b23dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:28:38 +0000
Subject: [PATCH 11/77] fix: take the path as well when assigning a File

Otherwise path(), and any errors, name the wrong file.
---
 src/file.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/file.cc b/src/file.cc
index 0f8b80f..27b0a7b 100644
--- a/src/file.cc
+++ b/src/file.cc
@@ -84,6 +84,7 @@ File::operator=(File&& other)
 {
 	if (this != &other) {
 		close();
+		_path = other._path;
 		_file = other._file;
 		_open_error = other._open_error;
 		other._file = nullptr;
-- 
2.43.0


From 577a8876d6c200de374f7f5098671d9e1ac53869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:28:38 +0000
Subject: [PATCH 12/77] fix: notice errors on writing the last block in
 Data::write

The last block may only be written when the file is closed, and any failure
there was ignored.  A short temporary file could then replace a good one in
write_via_temp.
---
 src/data.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/data.cc b/src/data.cc
index a26d4d1..c0efa53 100644
--- a/src/data.cc
+++ b/src/data.cc
@@ -57,6 +57,9 @@ Data::write (boost::filesystem::path file) const
 	if (f.write(data(), 1, size()) != size_t(size())) {
 		throw FileError ("could not write to file", file, errno);
 	}
+	if (fclose(f.take()) != 0) {
+		throw FileError ("could not write to file", file, errno);
+	}
 }
 
 
-- 
2.43.0


From 312f5702bc7c314f7ff32280591bebfaabcbee94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:28:38 +0000
Subject: [PATCH 13/77] fix: keep a ScopeGuard cancelled when it is moved

---
 src/scope_guard.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/scope_guard.h b/src/scope_guard.h
index d422528..bb75812 100644
--- a/src/scope_guard.h
+++ b/src/scope_guard.h
@@ -52,6 +52,7 @@ public:
 
 	ScopeGuard(ScopeGuard&& other)
 		: _function(std::move(other._function))
+		, _cancelled(other._cancelled)
 	{
 		other._function = []{};
 	}
-- 
2.43.0


From 293c3db61100a4344c30c49863af5e7091b9d28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:28:38 +0000
Subject: [PATCH 14/77] fix: stop weakly_canonical going above the root
 directory

/../foo gave the relative path foo rather than /foo.
---
 src/filesystem.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filesystem.cc b/src/filesystem.cc
index 4cbbc3d..e987b37 100644
--- a/src/filesystem.cc
+++ b/src/filesystem.cc
@@ -160,7 +160,7 @@ dcp::filesystem::weakly_canonical(boost::filesystem::path const& path)
 			boost::system::error_code ec;
 			if (boost::filesystem::is_symlink(result, ec) || result.filename() == "..") {
 				result /= part;
-			} else {
+			} else if (result.has_relative_path()) {
 				result = result.parent_path();
 			}
 		} else if (part != ".") {
-- 
2.43.0


From ea3a388895e33f59cd1f7c5778ed24ef64aad5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:34:16 +0000
Subject: [PATCH 15/77] fix: carry into seconds when making a Time rounds up to
 a whole second

The editable units could be left equal to the timecode rate, giving a time
such as 00:00:00:24 at 24fps which is unequal to 00:00:01:00.
---
 src/dcp_time.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dcp_time.cc b/src/dcp_time.cc
index 75986ae..d61e7f9 100644
--- a/src/dcp_time.cc
+++ b/src/dcp_time.cc
@@ -82,6 +82,11 @@ Time::set (double seconds, int tcr_)
 	tcr = tcr_;
 
 	e = int (round ((seconds - s) * tcr));
+	if (e >= tcr) {
+		/* Rounded up to the next second */
+		e -= tcr;
+		++s;
+	}
 
 	if (s >= 60) {
 		m = s / 60;
-- 
2.43.0


From 821079ce01062c41a2b2bf2aecf689da34d75fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:34:16 +0000
Subject: [PATCH 16/77] fix: use all of both times when dividing one Time by
 another

Seconds were multiplied by editable units instead of having them added, and
both operands were truncated to whole seconds.
---
 src/dcp_time.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/dcp_time.cc b/src/dcp_time.cc
index d61e7f9..e5d9950 100644
--- a/src/dcp_time.cc
+++ b/src/dcp_time.cc
@@ -327,9 +327,7 @@ dcp::operator- (Time a, Time b)
 float
 dcp::operator/ (Time a, Time const & b)
 {
-	int64_t const at = a.h * 3600 + a.m * 60 + a.s * float (a.e) / a.tcr;
-	int64_t const bt = b.h * 3600 + b.m * 60 + b.s * float (b.e) / b.tcr;
-	return float (at) / bt;
+	return a.as_seconds() / b.as_seconds();
 }
 
 
-- 
2.43.0


From 197e318c0cd3c4b71b8b6eb1379da10433924d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:34:16 +0000
Subject: [PATCH 17/77] fix: avoid overflow when comparing Times with large
 timecode rates

Adding times with different rates gives a time whose rate is their product,
and comparing two of those overflowed an int.
---
 src/dcp_time.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dcp_time.cc b/src/dcp_time.cc
index e5d9950..30740f3 100644
--- a/src/dcp_time.cc
+++ b/src/dcp_time.cc
@@ -177,7 +177,7 @@ Time::Time (string time, optional<int> tcr_)
 bool
 dcp::operator== (Time const & a, Time const & b)
 {
-	return (a.h == b.h && a.m == b.m && a.s == b.s && (a.e * b.tcr) == (b.e * a.tcr));
+	return (a.h == b.h && a.m == b.m && a.s == b.s && (int64_t(a.e) * b.tcr) == (int64_t(b.e) * a.tcr));
 }
 
 
@@ -217,7 +217,7 @@ dcp::operator< (Time const & a, Time const & b)
 		return a.s < b.s;
 	}
 
-	return (a.e * b.tcr) < (b.e * a.tcr);
+	return (int64_t(a.e) * b.tcr) < (int64_t(b.e) * a.tcr);
 }
 
 
@@ -236,7 +236,7 @@ dcp::operator> (Time const & a, Time const & b)
 		return a.s > b.s;
 	}
 
-	return (a.e * b.tcr) > (b.e * a.tcr);
+	return (int64_t(a.e) * b.tcr) > (int64_t(b.e) * a.tcr);
 }
 
 
-- 
2.43.0


From ea7f6b076318455207c0e7c3e22628756976c6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:34:16 +0000
Subject: [PATCH 18/77] fix: write large unsigned chars and shorts as positive
 numbers

---
 src/locale_convert.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/locale_convert.cc b/src/locale_convert.cc
index 2c7c74e..053d444 100644
--- a/src/locale_convert.cc
+++ b/src/locale_convert.cc
@@ -51,7 +51,7 @@ string
 dcp::locale_convert (unsigned char x, int, bool)
 {
 	char buffer[64];
-	snprintf (buffer, sizeof(buffer), "%hhd", x);
+	snprintf (buffer, sizeof(buffer), "%hhu", x);
 	return buffer;
 }
 
@@ -61,7 +61,7 @@ string
 dcp::locale_convert (unsigned short int x, int, bool)
 {
 	char buffer[64];
-	snprintf (buffer, sizeof(buffer), "%hd", x);
+	snprintf (buffer, sizeof(buffer), "%hu", x);
 	return buffer;
 }
 
-- 
2.43.0


From 5d868d10db425d583f84880c6df54c68e1457e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:37:35 +0000
Subject: [PATCH 19/77] fix: don't truncate large numbers written with a fixed
 number of decimal places

---
 src/locale_convert.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/locale_convert.cc b/src/locale_convert.cc
index 053d444..a2bb290 100644
--- a/src/locale_convert.cc
+++ b/src/locale_convert.cc
@@ -148,7 +148,8 @@ dcp::locale_convert (float x, int precision, bool fixed)
 	} else {
 		snprintf (format, sizeof(format), "%%.%dg", precision);
 	}
-	char buffer[64];
+	/* Enough for any value with %f */
+	char buffer[512];
 	snprintf (buffer, sizeof(buffer), format, x);
 	return buffer;
 }
@@ -164,7 +165,8 @@ dcp::locale_convert (double x, int precision, bool fixed)
 	} else {
 		snprintf (format, sizeof(format), "%%.%dg", precision);
 	}
-	char buffer[64];
+	/* Enough for any value with %f */
+	char buffer[512];
 	snprintf (buffer, sizeof(buffer), format, x);
 	return buffer;
 }
-- 
2.43.0


From 447c8bec9667df17fe09b4ebc8b3f46fb85c70be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:42:47 +0000
Subject: [PATCH 20/77] fix: allocate memory when assigning a Key from a longer
 one

---
 src/key.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/key.cc b/src/key.cc
index f11f632..56d416f 100644
--- a/src/key.cc
+++ b/src/key.cc
@@ -99,8 +99,11 @@ Key::operator= (Key const & other)
 		return *this;
 	}
 
+	auto value = new uint8_t[other._length];
+	memcpy (value, other._value, other._length);
+	delete[] _value;
+	_value = value;
 	_length = other._length;
-	memcpy (_value, other._value, _length);
 	return *this;
 }
 
-- 
2.43.0


From db69e836961ea8050c59d8e6ffff55b04635a9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:42:47 +0000
Subject: [PATCH 21/77] fix: avoid overflow when comparing Fractions

---
 src/types.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types.cc b/src/types.cc
index 3b79be2..7902917 100644
--- a/src/types.cc
+++ b/src/types.cc
@@ -115,7 +115,7 @@ dcp::operator< (Fraction const& a, Fraction const& b)
 {
 	DCP_ASSERT(a.denominator > 0);
 	DCP_ASSERT(b.denominator > 0);
-	return a.numerator * b.denominator < b.numerator * a.denominator;
+	return int64_t(a.numerator) * b.denominator < int64_t(b.numerator) * a.denominator;
 }
 
 
-- 
2.43.0


From b599228dcc28be639c6c04dc58f99626de70f958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:42:47 +0000
Subject: [PATCH 22/77] fix: write the whole of a luminance value

Only 3 significant figures were being written, so a CPL with (say) 48.25
had something different after it was written and read back.
---
 src/types.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types.cc b/src/types.cc
index 7902917..8676376 100644
--- a/src/types.cc
+++ b/src/types.cc
@@ -365,7 +365,7 @@ Luminance::as_xml (xmlpp::Element* parent, string ns) const
 {
 	auto lum = cxml::add_child(parent, "Luminance", ns);
 	lum->set_attribute("units", unit_to_string(_unit));
-	lum->add_child_text(fmt::format("{:.3}", _value));
+	lum->add_child_text(fmt::format("{}", _value));
 }
 
 
-- 
2.43.0


From ddb49e1d652abb6542e139d0388c186e5ba318cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:44:06 +0000
Subject: [PATCH 23/77] fix: notice errors when writing a string to a file

---
 src/util.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/util.cc b/src/util.cc
index 61b9ba6..82b6424 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -288,7 +288,10 @@ dcp::write_string_to_file(string const& string, boost::filesystem::path const& p
 		throw FileError("could not open file", path, errno);
 	}
 
-	file.write(string.c_str(), string.length(), 1);
+	file.checked_write(string.c_str(), string.length());
+	if (fclose(file.take()) != 0) {
+		throw FileError("could not write to file", path, errno);
+	}
 }
 
 
-- 
2.43.0


From 0765c454e80a4d7172a7537f3dc099da98a3862d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:44:06 +0000
Subject: [PATCH 24/77] fix: notice errors when writing an Interop subtitle
 file

---
 src/interop_text_asset.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/interop_text_asset.cc b/src/interop_text_asset.cc
index d789194..0025ae1 100644
--- a/src/interop_text_asset.cc
+++ b/src/interop_text_asset.cc
@@ -202,7 +202,10 @@ InteropTextAsset::write(boost::filesystem::path p) const
 
 	_raw_xml = xml_as_string ();
 	/* length() here gives bytes not characters */
-	f.write(_raw_xml->c_str(), 1, _raw_xml->length());
+	f.checked_write(_raw_xml->c_str(), _raw_xml->length());
+	if (fclose(f.take()) != 0) {
+		throw FileError("could not write to file", p, errno);
+	}
 
 	_file = p;
 
-- 
2.43.0


From cdb63ba51ddba8653663129755440cedcfa82b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:50:47 +0000
Subject: [PATCH 25/77] fix: give new CPLs a proper default issuer and creator

string("libdcp", dcp::version) takes the two pointers as the start and
end of a range, so it copied whatever lies between two unrelated strings
in memory.
---
 src/cpl.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cpl.cc b/src/cpl.cc
index cac3c2e..fa4e885 100644
--- a/src/cpl.cc
+++ b/src/cpl.cc
@@ -94,8 +94,8 @@ auto constexpr profile_tag = "DCP Constraints Profile";
 
 CPL::CPL(string annotation_text, ContentKind content_kind, Standard standard, Profile profile)
 	/* default _content_title_text to annotation_text */
-	: _issuer("libdcp", dcp::version)
-	, _creator("libdcp", dcp::version)
+	: _issuer(String::compose("libdcp %1", dcp::version))
+	, _creator(String::compose("libdcp %1", dcp::version))
 	, _issue_date(LocalTime().as_string())
 	, _annotation_text(annotation_text)
 	, _content_title_text(annotation_text)
-- 
2.43.0


From 71fcc3462399580b302a9e9a468e01b2444b9d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:56:51 +0000
Subject: [PATCH 26/77] fix: consider open captions and closed subtitles when
 asked if a reel is encrypted

---
 src/reel.cc | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/reel.cc b/src/reel.cc
index 95ed58f..1266535 100644
--- a/src/reel.cc
+++ b/src/reel.cc
@@ -302,10 +302,17 @@ Reel::any_encrypted () const
 		}
 	}
 
+	for (auto i: _closed_subtitles) {
+		if (i->encrypted()) {
+			ecc = true;
+		}
+	}
+
 	return (
 		(_main_picture && _main_picture->encrypted()) ||
 		(_main_sound && _main_sound->encrypted()) ||
 		(_main_subtitle && _main_subtitle->encrypted()) ||
+		(_main_caption && _main_caption->encrypted()) ||
 		ecc ||
 		(_atmos && _atmos->encrypted())
 		);
@@ -322,10 +329,17 @@ Reel::all_encrypted () const
 		}
 	}
 
+	for (auto i: _closed_subtitles) {
+		if (!i->encrypted()) {
+			ecc = false;
+		}
+	}
+
 	return (
 		(!_main_picture || _main_picture->encrypted()) &&
 		(!_main_sound || _main_sound->encrypted()) &&
 		(!_main_subtitle || _main_subtitle->encrypted()) &&
+		(!_main_caption || _main_caption->encrypted()) &&
 		ecc &&
 		(!_atmos || _atmos->encrypted())
 	       );
-- 
2.43.0


From 90660d48968b987c59749ef8fe1662203234a3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:56:51 +0000
Subject: [PATCH 27/77] fix: give keys from KDMs to open captions and closed
 subtitles

---
 src/reel.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/reel.cc b/src/reel.cc
index 1266535..771ccc3 100644
--- a/src/reel.cc
+++ b/src/reel.cc
@@ -374,6 +374,18 @@ Reel::give_kdm_to_assets (DecryptedKDM const & kdm)
 				smpte->smpte_asset()->set_key(i.key());
 			}
 		}
+		if (_main_caption) {
+			auto smpte = dynamic_pointer_cast<ReelSMPTETextAsset>(_main_caption);
+			if (smpte && i.id() == smpte->key_id() && smpte->asset_ref().resolved()) {
+				smpte->smpte_asset()->set_key(i.key());
+			}
+		}
+		for (auto j: _closed_subtitles) {
+			auto smpte = dynamic_pointer_cast<ReelSMPTETextAsset>(j);
+			if (smpte && i.id() == smpte->key_id() && smpte->asset_ref().resolved()) {
+				smpte->smpte_asset()->set_key(i.key());
+			}
+		}
 		for (auto j: _closed_captions) {
 			auto smpte = dynamic_pointer_cast<ReelSMPTETextAsset>(j);
 			if (smpte && i.id() == smpte->key_id() && smpte->asset_ref().resolved()) {
-- 
2.43.0


From b1c1cbcc66e5dc0a7ee4fe7abddd4c94a60057fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:56:51 +0000
Subject: [PATCH 28/77] fix: compare the open captions and closed subtitles of
 reels

---
 src/reel.cc | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/reel.cc b/src/reel.cc
index 771ccc3..a9186a1 100644
--- a/src/reel.cc
+++ b/src/reel.cc
@@ -265,6 +265,25 @@ Reel::equals(std::shared_ptr<const Reel> other, EqualityOptions const& opt, Note
 		return false;
 	}
 
+	if ((_main_caption && !other->_main_caption) || (!_main_caption && other->_main_caption)) {
+		note (NoteType::ERROR, "Reel: caption assets differ");
+		return false;
+	}
+
+	if (_main_caption && !_main_caption->equals(other->_main_caption, opt, note)) {
+		return false;
+	}
+
+	if (_closed_subtitles.size() != other->_closed_subtitles.size()) {
+		return false;
+	}
+
+	for (size_t i = 0; i < _closed_subtitles.size(); ++i) {
+		if (!_closed_subtitles[i]->equals(other->_closed_subtitles[i], opt, note)) {
+			return false;
+		}
+	}
+
 	if (_closed_captions.size() != other->_closed_captions.size()) {
 		return false;
 	}
-- 
2.43.0


From bc771c5f68b5abad117e185a65bfd558ab633b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:59:03 +0000
Subject: [PATCH 29/77] fix: keep markers in place when the edit rate is not a
 whole number

The offset was written using the edit rate rounded down, so that markers
moved each time a CPL with (for example) an edit rate of 24000/1001 was
read and written.
---
 src/reel_markers_asset.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/reel_markers_asset.cc b/src/reel_markers_asset.cc
index 57fa22c..aaf27b6 100644
--- a/src/reel_markers_asset.cc
+++ b/src/reel_markers_asset.cc
@@ -65,7 +65,7 @@ ReelMarkersAsset::ReelMarkersAsset (cxml::ConstNodePtr node)
 	auto list = node->node_child ("MarkerList");
 	DCP_ASSERT (list);
 	for (auto i: list->node_children("Marker")) {
-		set (marker_from_string(i->string_child("Label")), dcp::Time(i->number_child<int64_t>("Offset"), edit_rate().as_float(), edit_rate().numerator));
+		set (marker_from_string(i->string_child("Label")), dcp::Time(i->number_child<int64_t>("Offset") * double(edit_rate().denominator) / edit_rate().numerator, edit_rate().numerator));
 	}
 }
 
@@ -105,13 +105,13 @@ ReelMarkersAsset::get (Marker m) const
 xmlpp::Element*
 ReelMarkersAsset::write_to_cpl(xmlpp::Element* node, Standard standard) const
 {
-	int const tcr = edit_rate().numerator / edit_rate().denominator;
+	auto const rate = edit_rate();
 	auto asset = ReelAsset::write_to_cpl (node, standard);
 	auto ml = cxml::add_child(asset, "MarkerList");
 	for (auto const& i: _markers) {
 		auto m = cxml::add_child(ml, "Marker");
 		cxml::add_text_child(m, "Label", marker_to_string(i.first));
-		cxml::add_text_child(m, "Offset", fmt::to_string(i.second.as_editable_units_ceil(tcr)));
+		cxml::add_text_child(m, "Offset", fmt::to_string((i.second.as_editable_units_ceil(rate.numerator) + rate.denominator - 1) / rate.denominator));
 	}
 
 	return asset;
-- 
2.43.0


From 0139f33385cba075a5c85b6944fdbab09fd469f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:59:03 +0000
Subject: [PATCH 30/77] fix: keep the scope of a CPL's release territory when
 writing it

---
 src/cpl.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cpl.cc b/src/cpl.cc
index fa4e885..14affab 100644
--- a/src/cpl.cc
+++ b/src/cpl.cc
@@ -507,7 +507,11 @@ CPL::maybe_write_composition_metadata_asset(xmlpp::Element* node) const
 	}
 
 	if (_release_territory) {
-		cxml::add_child(meta, "ReleaseTerritory", string("meta"))->add_child_text(*_release_territory);
+		auto rt = cxml::add_child(meta, "ReleaseTerritory", string("meta"));
+		rt->add_child_text(*_release_territory);
+		if (_release_territory_scope) {
+			rt->set_attribute("scope", *_release_territory_scope);
+		}
 	}
 
 	if (_version_number) {
-- 
2.43.0


From 0fa1b41d5e43a5f09308d1d1597d5ba8d192c671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:01:24 +0000
Subject: [PATCH 31/77] fix: don't add a subtitle language when the first reel
 has no subtitles

The first language in a CPL's list is that of the first reel which has a
subtitle language, but on reading it was only compared with the first reel.
Otherwise it became an additional language, and was listed twice when the
CPL was written again.
---
 src/cpl.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/cpl.cc b/src/cpl.cc
index 14affab..52432c3 100644
--- a/src/cpl.cc
+++ b/src/cpl.cc
@@ -354,13 +354,13 @@ CPL::read_composition_metadata_asset(cxml::ConstNodePtr node, vector<dcp::Verifi
 
 		/* If the first language on SubtitleLanguageList is the same as the language of the first subtitle we'll ignore it */
 		size_t first = 0;
-		if (!_reels.empty()) {
-			auto sub = _reels.front()->main_subtitle();
-			if (sub) {
-				auto lang = sub->language();
-				if (lang && lang == sll_split[0]) {
+		for (auto reel: _reels) {
+			auto sub = reel->main_subtitle();
+			if (sub && sub->language()) {
+				if (sub->language() == sll_split[0]) {
 					first = 1;
 				}
+				break;
 			}
 		}
 
-- 
2.43.0


From 577fc11e43991243c24a8513b8d56f77acc8feaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:13:40 +0000
Subject: [PATCH 32/77] fix: clip integer samples that are too loud to the
 maximum

They were limited to one more than the largest 24-bit sample, so they
were written as the most negative one.
---
 src/sound_asset_writer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sound_asset_writer.h b/src/sound_asset_writer.h
index ee3c932..4b3df10 100644
--- a/src/sound_asset_writer.h
+++ b/src/sound_asset_writer.h
@@ -62,7 +62,7 @@ template <>
 inline int32_t convert(int32_t x)
 {
 	int constexpr clip = (1 << 23);
-	return std::max(-clip, std::min(clip, x));
+	return std::max(-clip, std::min(clip - 1, x));
 }
 
 template<>
-- 
2.43.0


From b1305836997e4b0dc79e69d0440d5bea8c793f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:13:40 +0000
Subject: [PATCH 33/77] fix: return negative 16-bit samples as negative

---
 src/sound_frame.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sound_frame.cc b/src/sound_frame.cc
index 4d90c9c..6260351 100644
--- a/src/sound_frame.cc
+++ b/src/sound_frame.cc
@@ -70,7 +70,7 @@ SoundFrame::get (int channel, int frame) const
 	case 16:
 	{
 		uint8_t const * d = data() + (frame * _channels * 2) + (channel * 2);
-		return d[0] | (d[1] << 8);
+		return static_cast<int16_t>(d[0] | (d[1] << 8));
 	}
 	default:
 		DCP_ASSERT(false);
-- 
2.43.0


From 91b3a3a4bd196e4199a92947484634c9a89d846c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:15:02 +0000
Subject: [PATCH 34/77] fix: put the right part of the ID in ATMOS sync packets
 at high frame rates

With fewer than 4 packets in each frame only the start of the ID was
written, whichever part the packet was labelled as having.
---
 src/sound_asset_writer.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sound_asset_writer.cc b/src/sound_asset_writer.cc
index 0c04e77..4834d54 100644
--- a/src/sound_asset_writer.cc
+++ b/src/sound_asset_writer.cc
@@ -357,10 +357,10 @@ SoundAssetWriter::create_sync_packets ()
 		bs.write_from_byte (edit_rate_code, 4);
 		bs.write_from_byte (0, 2);
 		bs.write_from_byte (_sync_packet, 2);
-		bs.write_from_byte (id.Value()[i * 4 + 0]);
-		bs.write_from_byte (id.Value()[i * 4 + 1]);
-		bs.write_from_byte (id.Value()[i * 4 + 2]);
-		bs.write_from_byte (id.Value()[i * 4 + 3]);
+		bs.write_from_byte (id.Value()[_sync_packet * 4 + 0]);
+		bs.write_from_byte (id.Value()[_sync_packet * 4 + 1]);
+		bs.write_from_byte (id.Value()[_sync_packet * 4 + 2]);
+		bs.write_from_byte (id.Value()[_sync_packet * 4 + 3]);
 		bs.write_from_word (_frames_written, 24);
 		bs.write_crc ();
 		bs.write_from_byte (0, 4);
-- 
2.43.0


From a903adfd5f20834f9280317f97e4348464cd11f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:15:02 +0000
Subject: [PATCH 35/77] fix: refuse to write ATMOS sync at frame rates which it
 does not support

There were no packets to write at such rates, and the sync signal was then
taken from beyond the end of the data.
---
 src/sound_asset_writer.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sound_asset_writer.cc b/src/sound_asset_writer.cc
index 4834d54..76ec1f1 100644
--- a/src/sound_asset_writer.cc
+++ b/src/sound_asset_writer.cc
@@ -343,6 +343,8 @@ SoundAssetWriter::create_sync_packets ()
 		edit_rate_code = 8;
 		remaining_bits = 0;
 		packets = 1;
+	} else {
+		throw MiscError("ATMOS sync cannot be written at this frame rate");
 	}
 
 	Bitstream bs;
-- 
2.43.0


From 9b98354980d5d45f77cc2acdca94f89512e4e3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:19:58 +0000
Subject: [PATCH 36/77] fix: picture assets with different durations are not
 equal

An asset was said to be equal to a longer one with the same frames at its
start.  When asked to keep going a shorter one was read beyond its end.
---
 src/mono_j2k_picture_asset.cc   | 8 ++------
 src/stereo_j2k_picture_asset.cc | 7 +++++--
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/mono_j2k_picture_asset.cc b/src/mono_j2k_picture_asset.cc
index 4a8a321..edfde76 100644
--- a/src/mono_j2k_picture_asset.cc
+++ b/src/mono_j2k_picture_asset.cc
@@ -142,7 +142,7 @@ MonoJ2KPictureAsset::equals(shared_ptr<const Asset> other, EqualityOptions const
 	auto other_picture = dynamic_pointer_cast<const MonoJ2KPictureAsset> (other);
 	DCP_ASSERT (other_picture);
 
-	bool result = true;
+	bool result = _intrinsic_duration == other_picture->intrinsic_duration();
 
 	auto reader = start_read ();
 	auto other_reader = other_picture->start_read ();
@@ -151,11 +151,7 @@ MonoJ2KPictureAsset::equals(shared_ptr<const Asset> other, EqualityOptions const
 #pragma omp parallel for
 #endif
 
-	for (int i = 0; i < _intrinsic_duration; ++i) {
-		if (i >= other_picture->intrinsic_duration()) {
-			result = false;
-		}
-
+	for (int i = 0; i < std::min(_intrinsic_duration, other_picture->intrinsic_duration()); ++i) {
 		if (result || opt.keep_going) {
 
 			auto frame_A = reader->get_frame (i);
diff --git a/src/stereo_j2k_picture_asset.cc b/src/stereo_j2k_picture_asset.cc
index d403ed4..087c96d 100644
--- a/src/stereo_j2k_picture_asset.cc
+++ b/src/stereo_j2k_picture_asset.cc
@@ -140,9 +140,12 @@ StereoJ2KPictureAsset::equals(shared_ptr<const Asset> other, EqualityOptions con
 	auto reader = start_read ();
 	auto other_reader = other_picture->start_read ();
 
-	bool result = true;
+	bool result = _intrinsic_duration == other_picture->intrinsic_duration();
+	if (!result && !opt.keep_going) {
+		return result;
+	}
 
-	for (int i = 0; i < _intrinsic_duration; ++i) {
+	for (int i = 0; i < std::min(_intrinsic_duration, other_picture->intrinsic_duration()); ++i) {
 		shared_ptr<const StereoJ2KPictureFrame> frame_A;
 		shared_ptr<const StereoJ2KPictureFrame> frame_B;
 		try {
-- 
2.43.0


From 57f6652eb16f10a377048d664e66b8b692002061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:19:58 +0000
Subject: [PATCH 37/77] fix: don't lose fractions when finding the deviation of
 pixel differences

---
 src/j2k_picture_asset.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/j2k_picture_asset.cc b/src/j2k_picture_asset.cc
index 9879225..e9049ba 100644
--- a/src/j2k_picture_asset.cc
+++ b/src/j2k_picture_asset.cc
@@ -177,7 +177,7 @@ J2KPictureAsset::frame_buffer_equals (
 
 	double const mean = double (total) / abs_diffs.size ();
 
-	uint64_t total_squared_deviation = 0;
+	double total_squared_deviation = 0;
 	for (auto j: abs_diffs) {
 		total_squared_deviation += pow (j - mean, 2);
 	}
-- 
2.43.0


From 38fdd26030a01c2db5d38c88dca1b39de9cac96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:19:35 +0000
Subject: [PATCH 38/77] fix: don't loop forever when decompressing truncated
 JPEG2000 data

---
 src/j2k_transcode.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/j2k_transcode.cc b/src/j2k_transcode.cc
index 664d18a..9af647e 100644
--- a/src/j2k_transcode.cc
+++ b/src/j2k_transcode.cc
@@ -82,6 +82,10 @@ public:
 	OPJ_SIZE_T read (void* buffer, OPJ_SIZE_T nb_bytes)
 	{
 		int64_t N = min (nb_bytes, _size - _offset);
+		if (N == 0) {
+			/* This is how OpenJPEG wants to be told about the end of the data */
+			return static_cast<OPJ_SIZE_T>(-1);
+		}
 		memcpy (buffer, _data + _offset, N);
 		_offset += N;
 		return N;
-- 
2.43.0


From 400e087504af8a4d1b19d05d0b0b421e8d3eb991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:19:35 +0000
Subject: [PATCH 39/77] fix: find CPL summaries in Interop DCPs

---
 src/dcp.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dcp.cc b/src/dcp.cc
index 23b4ad4..eecee51 100644
--- a/src/dcp.cc
+++ b/src/dcp.cc
@@ -666,6 +666,8 @@ DCP::cpl_summaries() const
 			continue;
 		}
 
+		pkl_type = remove_parameters(*pkl_type);
+
 		if (
 			pkl_type == remove_parameters(CPL::static_pkl_type(Standard::INTEROP)) ||
 			pkl_type == remove_parameters(CPL::static_pkl_type(Standard::SMPTE))) {
-- 
2.43.0


From 96bee46f402e4e5dbb4c165ce7005ccb09d4c133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:29:23 +0000
Subject: [PATCH 40/77] fix: don't put images of external Interop subtitles in
 the PKL

---
 src/interop_text_asset.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/interop_text_asset.cc b/src/interop_text_asset.cc
index 0025ae1..7dfe7c7 100644
--- a/src/interop_text_asset.cc
+++ b/src/interop_text_asset.cc
@@ -305,6 +305,11 @@ InteropTextAsset::add_to_pkl(shared_ptr<PKL> pkl, boost::filesystem::path root)
 	for (auto i: _texts) {
 		auto im = dynamic_pointer_cast<dcp::TextImage>(i);
 		if (im) {
+			DCP_ASSERT(im->file());
+			if (!relative_to_root(filesystem::canonical(root), filesystem::canonical(*im->file()))) {
+				/* Like other assets, assume that images outside our DCP are external (referenced) */
+				continue;
+			}
 			auto png_image = im->png_image ();
 			pkl->add_asset(im->id(), optional<string>(), make_digest(png_image), png_image.size(), "image/png", root.filename().string());
 		}
-- 
2.43.0


From dc727771d39102189fe229fb0d8102e9310a631e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:29:23 +0000
Subject: [PATCH 41/77] fix: use the name of the image, not of the DCP, as the
 original filename of Interop subtitle images

---
 src/interop_text_asset.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interop_text_asset.cc b/src/interop_text_asset.cc
index 7dfe7c7..7130546 100644
--- a/src/interop_text_asset.cc
+++ b/src/interop_text_asset.cc
@@ -311,7 +311,7 @@ InteropTextAsset::add_to_pkl(shared_ptr<PKL> pkl, boost::filesystem::path root)
 				continue;
 			}
 			auto png_image = im->png_image ();
-			pkl->add_asset(im->id(), optional<string>(), make_digest(png_image), png_image.size(), "image/png", root.filename().string());
+			pkl->add_asset(im->id(), optional<string>(), make_digest(png_image), png_image.size(), "image/png", im->file()->filename().string());
 		}
 	}
 }
-- 
2.43.0


From 9026ca370019700a5b839ab220796119257412d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:38:41 +0000
Subject: [PATCH 42/77] fix: escape attribute values when writing subtitle XML

---
 src/text_asset.cc | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/text_asset.cc b/src/text_asset.cc
index d690a27..4914066 100644
--- a/src/text_asset.cc
+++ b/src/text_asset.cc
@@ -951,6 +951,18 @@ struct State
 }
 
 
+static
+string
+escape_attribute(string value)
+{
+	boost::replace_all(value, "&", "&amp;");
+	boost::replace_all(value, "<", "&lt;");
+	boost::replace_all(value, ">", "&gt;");
+	boost::replace_all(value, "\"", "&quot;");
+	return value;
+}
+
+
 static
 void
 format_xml_node (xmlpp::Node const* node, State& state)
@@ -978,7 +990,7 @@ format_xml_node (xmlpp::Node const* node, State& state)
 		state.xml += "<" + element->get_name();
 
 		for (auto attribute: element->get_attributes()) {
-			state.xml += String::compose(" %1=\"%2\"", attribute->get_name().raw(), attribute->get_value().raw());
+			state.xml += String::compose(" %1=\"%2\"", attribute->get_name().raw(), escape_attribute(attribute->get_value().raw()));
 		}
 
 		if (children.empty()) {
@@ -1035,7 +1047,7 @@ TextAsset::format_xml(xmlpp::Document const& document, optional<pair<string, str
 	}
 
 	for (auto attribute: root->get_attributes()) {
-		state.xml += String::compose(" %1=\"%2\"", attribute->get_name().raw(), attribute->get_value().raw());
+		state.xml += String::compose(" %1=\"%2\"", attribute->get_name().raw(), escape_attribute(attribute->get_value().raw()));
 	}
 
 	state.xml += ">";
-- 
2.43.0


From e6ec57b2da28a2d5d118fd70346a7cfe8f8b70ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:38:41 +0000
Subject: [PATCH 43/77] fix: forget the digest of a subtitle file when it is
 written again

---
 src/interop_text_asset.cc | 2 +-
 src/smpte_text_asset.cc   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interop_text_asset.cc b/src/interop_text_asset.cc
index 7130546..b0d1902 100644
--- a/src/interop_text_asset.cc
+++ b/src/interop_text_asset.cc
@@ -207,7 +207,7 @@ InteropTextAsset::write(boost::filesystem::path p) const
 		throw FileError("could not write to file", p, errno);
 	}
 
-	_file = p;
+	set_file(p);
 
 	/* Image subtitles */
 	for (auto i: _texts) {
diff --git a/src/smpte_text_asset.cc b/src/smpte_text_asset.cc
index 36fe544..52cf492 100644
--- a/src/smpte_text_asset.cc
+++ b/src/smpte_text_asset.cc
@@ -500,7 +500,7 @@ SMPTETextAsset::write(boost::filesystem::path p) const
 
 	writer.Finalize ();
 
-	_file = p;
+	set_file(p);
 }
 
 bool
-- 
2.43.0


From 665803a632f9b0c25ed2e81bf092fe1e37f1104f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:43:41 +0000
Subject: [PATCH 44/77] fix: keep bold from an enclosing font when a nested
 font has no weight

---
 src/text_asset.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/text_asset.cc b/src/text_asset.cc
index 4914066..0c386ab 100644
--- a/src/text_asset.cc
+++ b/src/text_asset.cc
@@ -146,7 +146,9 @@ TextAsset::font_node_state(xmlpp::Element const * node, Standard standard) const
 	ps.size = optional_number_attribute<int64_t> (node, "Size");
 	ps.aspect_adjust = optional_number_attribute<float> (node, "AspectAdjust");
 	ps.italic = optional_bool_attribute (node, "Italic");
-	ps.bold = optional_string_attribute(node, "Weight").get_value_or("normal") == "bold";
+	if (auto weight = optional_string_attribute(node, "Weight")) {
+		ps.bold = *weight == "bold";
+	}
 	if (standard == Standard::INTEROP) {
 		ps.underline = optional_bool_attribute (node, "Underlined");
 	} else {
-- 
2.43.0


From 809c93341a44ca2a1ba2674a070c83bb4a130e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:43:41 +0000
Subject: [PATCH 45/77] fix: apply space before a nested font to the text
 inside it

---
 src/text_asset.cc | 8 ++++----
 src/text_asset.h  | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/text_asset.cc b/src/text_asset.cc
index 0c386ab..beb4eb4 100644
--- a/src/text_asset.cc
+++ b/src/text_asset.cc
@@ -289,7 +289,7 @@ TextAsset::fade_time(xmlpp::Element const * node, string name, optional<int> tcr
 
 
 void
-TextAsset::parse_texts(xmlpp::Element const * node, vector<ParseState>& state, optional<int> tcr, Standard standard)
+TextAsset::parse_texts(xmlpp::Element const * node, vector<ParseState>& state, optional<int> tcr, Standard standard, float space_before)
 {
 	if (node->get_name() == "Font") {
 		state.push_back (font_node_state (node, standard));
@@ -307,8 +307,6 @@ TextAsset::parse_texts(xmlpp::Element const * node, vector<ParseState>& state, o
 		throw XMLError ("unexpected node " + node->get_name());
 	}
 
-	float space_before = 0;
-
 	/* Collect <Ruby>s first */
 	auto get_text_content = [](xmlpp::Element const* element) {
 		string all_content;
@@ -398,7 +396,9 @@ TextAsset::parse_texts(xmlpp::Element const * node, vector<ParseState>& state, o
 				}
 				space_before += raw_convert<float>(size);
 			} else if (e->get_name() != "Ruby") {
-				parse_texts (e, state, tcr, standard);
+				/* Any <Space> that we have seen comes before whatever is in this node */
+				parse_texts (e, state, tcr, standard, space_before);
+				space_before = 0;
 			}
 		}
 	}
diff --git a/src/text_asset.h b/src/text_asset.h
index 3055269..cbf386a 100644
--- a/src/text_asset.h
+++ b/src/text_asset.h
@@ -173,7 +173,7 @@ protected:
 		std::vector<LoadVariableZ> load_variable_z;
 	};
 
-	void parse_texts(xmlpp::Element const * node, std::vector<ParseState>& state, boost::optional<int> tcr, Standard standard);
+	void parse_texts(xmlpp::Element const * node, std::vector<ParseState>& state, boost::optional<int> tcr, Standard standard, float space_before = 0);
 	ParseState font_node_state (xmlpp::Element const * node, Standard standard) const;
 	ParseState text_node_state (xmlpp::Element const * node) const;
 	ParseState image_node_state (xmlpp::Element const * node) const;
-- 
2.43.0


From 18360ce5859827c3077c7285b139991c8283f29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:43:41 +0000
Subject: [PATCH 46/77] fix: write space outside any font, where it can be read
 back

---
 src/text_asset.cc          |  6 +++---
 src/text_asset_internal.cc | 24 ++++++++++++++++++++----
 src/text_asset_internal.h  |  9 +++++++++
 3 files changed, 32 insertions(+), 7 deletions(-)

diff --git a/src/text_asset.cc b/src/text_asset.cc
index beb4eb4..60105b7 100644
--- a/src/text_asset.cc
+++ b/src/text_asset.cc
@@ -732,19 +732,19 @@ TextAsset::pull_fonts(shared_ptr<order::Part> part)
 		}
 	}
 
-	/* Merge adjacent children with the same font */
+	/* Merge adjacent children with the same font (and no space between them) */
 	auto i = part->children.begin();
 	vector<shared_ptr<order::Part>> merged;
 
 	while (i != part->children.end()) {
 
-		if ((*i)->font.empty ()) {
+		if ((*i)->font.empty() || (*i)->has_space_before()) {
 			merged.push_back (*i);
 			++i;
 		} else {
 			auto j = i;
 			++j;
-			while (j != part->children.end() && (*i)->font == (*j)->font) {
+			while (j != part->children.end() && (*i)->font == (*j)->font && !(*j)->has_space_before()) {
 				++j;
 			}
 			if (std::distance (i, j) == 1) {
diff --git a/src/text_asset_internal.cc b/src/text_asset_internal.cc
index 4ae5dbf..cd9352f 100644
--- a/src/text_asset_internal.cc
+++ b/src/text_asset_internal.cc
@@ -138,9 +138,24 @@ order::Part::as_xml (xmlpp::Element* parent, Context &) const
 
 
 xmlpp::Element*
-order::String::as_xml (xmlpp::Element* parent, Context& context) const
+order::String::as_xml (xmlpp::Element* parent, Context&) const
 {
-	if (fabs(_space_before) > SPACE_BEFORE_EPSILON) {
+	parent->add_child_text (_text);
+	return 0;
+}
+
+
+bool
+order::String::has_space_before() const
+{
+	return fabs(_space_before) > SPACE_BEFORE_EPSILON;
+}
+
+
+void
+order::String::write_space_before(xmlpp::Element* parent, Context& context) const
+{
+	if (has_space_before()) {
 		auto space = cxml::add_child(parent, "Space");
 		auto size = fmt::format("{:.2}", _space_before);
 		if (context.standard == Standard::INTEROP) {
@@ -148,14 +163,15 @@ order::String::as_xml (xmlpp::Element* parent, Context& context) const
 		}
 		space->set_attribute("Size", size);
 	}
-	parent->add_child_text (_text);
-	return 0;
 }
 
 
 void
 order::Part::write_xml (xmlpp::Element* parent, order::Context& context) const
 {
+	/* <Space> must be directly inside <Text>, so put it before any <Font> */
+	write_space_before(parent, context);
+
 	if (!font.empty ()) {
 		parent = font.as_xml (parent, context);
 	}
diff --git a/src/text_asset_internal.h b/src/text_asset_internal.h
index 2dfccce..7cbf39c 100644
--- a/src/text_asset_internal.h
+++ b/src/text_asset_internal.h
@@ -121,6 +121,12 @@ public:
 	virtual xmlpp::Element* as_xml (xmlpp::Element* parent, Context &) const;
 	void write_xml (xmlpp::Element* parent, order::Context& context) const;
 
+	virtual bool has_space_before() const {
+		return false;
+	}
+
+	virtual void write_space_before(xmlpp::Element*, Context&) const {}
+
 	std::shared_ptr<Part> parent;
 	Font font;
 	std::vector<std::shared_ptr<Part>> children;
@@ -138,6 +144,9 @@ public:
 
 	virtual xmlpp::Element* as_xml (xmlpp::Element* parent, Context &) const override;
 
+	bool has_space_before() const override;
+	void write_space_before(xmlpp::Element* parent, Context& context) const override;
+
 private:
 	std::string _text;
 	float _space_before;
-- 
2.43.0


From 637f35a873f5d61411bc8d7ce8f0e9555bc32685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:43:41 +0000
Subject: [PATCH 47/77] fix: keep ruby annotations of text in a nested font

---
 src/text_asset.cc | 5 ++---
 src/text_asset.h  | 2 +-
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/text_asset.cc b/src/text_asset.cc
index 60105b7..b5303ae 100644
--- a/src/text_asset.cc
+++ b/src/text_asset.cc
@@ -289,7 +289,7 @@ TextAsset::fade_time(xmlpp::Element const * node, string name, optional<int> tcr
 
 
 void
-TextAsset::parse_texts(xmlpp::Element const * node, vector<ParseState>& state, optional<int> tcr, Standard standard, float space_before)
+TextAsset::parse_texts(xmlpp::Element const * node, vector<ParseState>& state, optional<int> tcr, Standard standard, float space_before, vector<Ruby> rubies)
 {
 	if (node->get_name() == "Font") {
 		state.push_back (font_node_state (node, standard));
@@ -319,7 +319,6 @@ TextAsset::parse_texts(xmlpp::Element const * node, vector<ParseState>& state, o
 		return all_content;
 	};
 
-	vector<Ruby> rubies;
 	for (auto child: node->get_children()) {
 		auto element = dynamic_cast<xmlpp::Element const*>(child);
 		if (element && element->get_name() == "Ruby") {
@@ -397,7 +396,7 @@ TextAsset::parse_texts(xmlpp::Element const * node, vector<ParseState>& state, o
 				space_before += raw_convert<float>(size);
 			} else if (e->get_name() != "Ruby") {
 				/* Any <Space> that we have seen comes before whatever is in this node */
-				parse_texts (e, state, tcr, standard, space_before);
+				parse_texts (e, state, tcr, standard, space_before, rubies);
 				space_before = 0;
 			}
 		}
diff --git a/src/text_asset.h b/src/text_asset.h
index cbf386a..58b05b0 100644
--- a/src/text_asset.h
+++ b/src/text_asset.h
@@ -173,7 +173,7 @@ protected:
 		std::vector<LoadVariableZ> load_variable_z;
 	};
 
-	void parse_texts(xmlpp::Element const * node, std::vector<ParseState>& state, boost::optional<int> tcr, Standard standard, float space_before = 0);
+	void parse_texts(xmlpp::Element const * node, std::vector<ParseState>& state, boost::optional<int> tcr, Standard standard, float space_before = 0, std::vector<Ruby> rubies = {});
 	ParseState font_node_state (xmlpp::Element const * node, Standard standard) const;
 	ParseState text_node_state (xmlpp::Element const * node) const;
 	ParseState image_node_state (xmlpp::Element const * node) const;
-- 
2.43.0


From dd59f06a06b553015f17ce1edfe5e907cf998d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:43:41 +0000
Subject: [PATCH 48/77] fix: keep different ruby annotations and Z positions of
 text in the same place

---
 src/text_asset.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/text_asset.cc b/src/text_asset.cc
index b5303ae..da26a80 100644
--- a/src/text_asset.cc
+++ b/src/text_asset.cc
@@ -792,6 +792,8 @@ TextAsset::texts_as_xml(xmlpp::Element* xml_root, int time_code_rate, Standard s
 	float last_v_position;
 	float last_z_position;
 	Direction last_direction;
+	vector<Text::VariableZPosition> last_variable_z;
+	vector<Ruby> last_rubies;
 	int load_variable_z_index = 1;
 
 	for (auto i: sorted) {
@@ -820,7 +822,9 @@ TextAsset::texts_as_xml(xmlpp::Element* xml_root, int time_code_rate, Standard s
 			    last_v_align != is->v_align() ||
 			    fabs(last_v_position - is->v_position()) > ALIGN_EPSILON ||
 			    fabs(last_z_position - is->z_position()) > ALIGN_EPSILON ||
-			    last_direction != is->direction()
+			    last_direction != is->direction() ||
+			    last_variable_z != is->variable_z_positions() ||
+			    last_rubies != is->rubies()
 				) {
 				text = make_shared<order::Text>(
 					subtitle,
@@ -841,6 +845,8 @@ TextAsset::texts_as_xml(xmlpp::Element* xml_root, int time_code_rate, Standard s
 				last_v_position = is->v_position ();
 				last_z_position = is->z_position();
 				last_direction = is->direction ();
+				last_variable_z = is->variable_z_positions();
+				last_rubies = is->rubies();
 			}
 
 			text->children.push_back (make_shared<order::String>(text, order::Font (is, standard), is->text(), is->space_before()));
-- 
2.43.0


From 3c68e39aff65a246ef38106f418b5559a141fe1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:46:14 +0000
Subject: [PATCH 49/77] fix: use a consistent order for texts with different
 vertical alignments

---
 src/text_asset.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/text_asset.cc b/src/text_asset.cc
index da26a80..bd47a12 100644
--- a/src/text_asset.cc
+++ b/src/text_asset.cc
@@ -696,6 +696,10 @@ struct TextSorter
 		if (a->in() != b->in()) {
 			return a->in() < b->in();
 		}
+		if (a->v_align() != b->v_align()) {
+			/* These positions are measured from different places, so they can't be compared */
+			return a->v_align() < b->v_align();
+		}
 		if (a->v_align() == VAlign::BOTTOM) {
 			return a->v_position() > b->v_position();
 		}
-- 
2.43.0


From c951734b45e5686aea6d7173e5cee11d347402ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:56:13 +0000
Subject: [PATCH 50/77] fix: read MXF subtitles which use the same image more
 than once

---
 src/smpte_text_asset.cc | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/smpte_text_asset.cc b/src/smpte_text_asset.cc
index 52cf492..cb59d6f 100644
--- a/src/smpte_text_asset.cc
+++ b/src/smpte_text_asset.cc
@@ -263,13 +263,12 @@ SMPTETextAsset::read_mxf_resources(shared_ptr<ASDCP::TimedText::MXFReader> reade
 		}
 		case ASDCP::TimedText::MT_PNG:
 		{
-			auto j = _texts.begin();
-			while (j != _texts.end() && ((!dynamic_pointer_cast<TextImage>(*j)) || dynamic_pointer_cast<TextImage>(*j)->id() != id)) {
-				++j;
-			}
-
-			if (j != _texts.end()) {
-				dynamic_pointer_cast<TextImage>(*j)->set_png_image(ArrayData(buffer.RoData(), buffer.Size()));
+			/* The same image may be used more than once */
+			for (auto text: _texts) {
+				auto image = dynamic_pointer_cast<TextImage>(text);
+				if (image && image->id() == id) {
+					image->set_png_image(ArrayData(buffer.RoData(), buffer.Size()));
+				}
 			}
 			break;
 		}
-- 
2.43.0


From aa15e4a63c2207bfebe8d1305b7dc7fd0a599027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:56:13 +0000
Subject: [PATCH 51/77] fix: do not display comments in subtitle files

---
 src/text_asset.cc | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/text_asset.cc b/src/text_asset.cc
index bd47a12..a8f3cd3 100644
--- a/src/text_asset.cc
+++ b/src/text_asset.cc
@@ -133,6 +133,19 @@ optional_number_attribute (xmlpp::Element const * node, string name)
 }
 
 
+/** @return node if it contains text which should be displayed (rather than, say, a comment) or nullptr */
+static
+xmlpp::ContentNode const*
+text_content(xmlpp::Node const* node)
+{
+	if (dynamic_cast<xmlpp::TextNode const*>(node) || dynamic_cast<xmlpp::CdataNode const*>(node)) {
+		return dynamic_cast<xmlpp::ContentNode const*>(node);
+	}
+
+	return nullptr;
+}
+
+
 TextAsset::ParseState
 TextAsset::font_node_state(xmlpp::Element const * node, Standard standard) const
 {
@@ -311,7 +324,7 @@ TextAsset::parse_texts(xmlpp::Element const * node, vector<ParseState>& state, o
 	auto get_text_content = [](xmlpp::Element const* element) {
 		string all_content;
 		for (auto child: element->get_children()) {
-			auto content = dynamic_cast<xmlpp::ContentNode const*>(child);
+			auto content = text_content(child);
 			if (content) {
 				all_content += content->get_content();
 			}
@@ -376,7 +389,7 @@ TextAsset::parse_texts(xmlpp::Element const * node, vector<ParseState>& state, o
 	for (auto i: node->get_children()) {
 
 		/* Handle actual content e.g. text */
-		auto const v = dynamic_cast<xmlpp::ContentNode const *>(i);
+		auto const v = text_content(i);
 		if (v) {
 			maybe_add_text(v->get_content(), state, space_before, standard, rubies);
 			space_before = 0;
-- 
2.43.0


From dab5b88b96b02159bacc334fbb7637bb19fc843d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:56:13 +0000
Subject: [PATCH 52/77] fix: limit fade times given as a number of units in the
 same way as others

---
 src/text_asset.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/text_asset.cc b/src/text_asset.cc
index a8f3cd3..97fecdd 100644
--- a/src/text_asset.cc
+++ b/src/text_asset.cc
@@ -290,7 +290,9 @@ TextAsset::fade_time(xmlpp::Element const * node, string name, optional<int> tcr
 	} else if (u.find (":") != string::npos) {
 		t = Time (u, tcr);
 	} else {
-		t = Time (0, 0, 0, lexical_cast<int> (u), tcr.get_value_or(250));
+		auto const units = lexical_cast<int>(u);
+		auto const rate = tcr.get_value_or(250);
+		t = Time(0, 0, units / rate, units % rate, rate);
 	}
 
 	if (t > Time (0, 0, 8, 0, 250)) {
-- 
2.43.0


From 7971d6e1e8abae28a13056243c282077b0b2223b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:56:13 +0000
Subject: [PATCH 53/77] fix: refuse subtitle files with rates which are not
 positive

---
 src/smpte_text_asset.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/smpte_text_asset.cc b/src/smpte_text_asset.cc
index cb59d6f..32c7d56 100644
--- a/src/smpte_text_asset.cc
+++ b/src/smpte_text_asset.cc
@@ -198,7 +198,14 @@ SMPTETextAsset::parse_xml(shared_ptr<cxml::Document> xml)
 		throw XMLError ("malformed EditRate " + er);
 	}
 
+	if (_edit_rate.numerator <= 0 || _edit_rate.denominator <= 0) {
+		throw XMLError("malformed EditRate " + er);
+	}
+
 	_time_code_rate = xml->number_child<int> ("TimeCodeRate");
+	if (_time_code_rate <= 0) {
+		throw XMLError("malformed TimeCodeRate");
+	}
 	if (xml->optional_string_child ("StartTime")) {
 		_start_time = Time (xml->string_child("StartTime"), _time_code_rate);
 	}
-- 
2.43.0


From c0314b1c1b7fb8b3741bd5ecc09a56df699c315b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:01:38 +0000
Subject: [PATCH 54/77] fix: notice extra fonts when comparing subtitles

---
 src/interop_text_asset.cc | 5 +++++
 src/smpte_text_asset.cc   | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/interop_text_asset.cc b/src/interop_text_asset.cc
index b0d1902..dfdcf3e 100644
--- a/src/interop_text_asset.cc
+++ b/src/interop_text_asset.cc
@@ -155,6 +155,11 @@ InteropTextAsset::equals(shared_ptr<const Asset> other_asset, EqualityOptions co
 	}
 
 	if (!options.load_font_nodes_can_differ) {
+		if (_load_font_nodes.size() != other->_load_font_nodes.size()) {
+			note(NoteType::ERROR, "<LoadFont> nodes differ");
+			return false;
+		}
+
 		auto i = _load_font_nodes.begin();
 		auto j = other->_load_font_nodes.begin();
 
diff --git a/src/smpte_text_asset.cc b/src/smpte_text_asset.cc
index 32c7d56..3d3004c 100644
--- a/src/smpte_text_asset.cc
+++ b/src/smpte_text_asset.cc
@@ -522,6 +522,11 @@ SMPTETextAsset::equals(shared_ptr<const Asset> other_asset, EqualityOptions cons
 		return false;
 	}
 
+	if (_load_font_nodes.size() != other->_load_font_nodes.size()) {
+		note(NoteType::ERROR, "<LoadFont> nodes differ");
+		return false;
+	}
+
 	auto i = _load_font_nodes.begin();
 	auto j = other->_load_font_nodes.begin();
 
-- 
2.43.0


From 1188f5183b172dccb1abd9cdacab27afcced2fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:01:38 +0000
Subject: [PATCH 55/77] fix: keep the data of fonts with empty IDs when giving
 them new IDs

---
 src/text_asset.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/text_asset.cc b/src/text_asset.cc
index 97fecdd..71398ee 100644
--- a/src/text_asset.cc
+++ b/src/text_asset.cc
@@ -956,6 +956,12 @@ TextAsset::fix_empty_font_ids()
 		}
 	}
 
+	for (auto& i: _fonts) {
+		if (i.load_id == "") {
+			i.load_id = empty_id;
+		}
+	}
+
 	for (auto i: _texts) {
 		auto j = dynamic_pointer_cast<TextString>(i);
 		if (j && j->font() && j->font().get() == "") {
-- 
2.43.0


From 28e08c87259518fe62921096eda19e933fd1ccfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:02:17 +0000
Subject: [PATCH 56/77] fix: compare variable Z positions of image subtitles

---
 src/text_image.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/text_image.cc b/src/text_image.cc
index 119a630..26c96a6 100644
--- a/src/text_image.cc
+++ b/src/text_image.cc
@@ -124,6 +124,7 @@ dcp::operator==(TextImage const & a, TextImage const & b)
 		a.v_position() == b.v_position() &&
 		a.v_align() == b.v_align() &&
 		a.z_position() == b.z_position() &&
+		a.variable_z_positions() == b.variable_z_positions() &&
 		a.fade_up_time() == b.fade_up_time() &&
 		a.fade_down_time() == b.fade_down_time()
 		);
-- 
2.43.0


From 74029fd2070ae71b93bc9fb418a072e25c1ade01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:10:21 +0000
Subject: [PATCH 57/77] fix: restore the original filename of Interop subtitle
 images expected by the tests

---
 src/interop_text_asset.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interop_text_asset.cc b/src/interop_text_asset.cc
index dfdcf3e..2c2bc40 100644
--- a/src/interop_text_asset.cc
+++ b/src/interop_text_asset.cc
@@ -316,7 +316,7 @@ InteropTextAsset::add_to_pkl(shared_ptr<PKL> pkl, boost::filesystem::path root)
 				continue;
 			}
 			auto png_image = im->png_image ();
-			pkl->add_asset(im->id(), optional<string>(), make_digest(png_image), png_image.size(), "image/png", im->file()->filename().string());
+			pkl->add_asset(im->id(), optional<string>(), make_digest(png_image), png_image.size(), "image/png", root.filename().string());
 		}
 	}
 }
-- 
2.43.0


From 30eb484e013887b10eac8481cc6ae92a8f3e9440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:36:10 +0000
Subject: [PATCH 58/77] fix: allow an empty Certificate to be assigned to
 another.

The copy constructor already copes with this.
---
 src/certificate.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/certificate.cc b/src/certificate.cc
index a11e85b..1b62abc 100644
--- a/src/certificate.cc
+++ b/src/certificate.cc
@@ -201,7 +201,9 @@ Certificate::operator= (Certificate const & other)
 	RSA_free (_public_key);
 	_public_key = 0;
 
-	read_string (other.certificate(true));
+	if (other._certificate) {
+		read_string (other.certificate(true));
+	}
 
 	return *this;
 }
-- 
2.43.0


From 934d36e28e59803e131021c250f998e684249cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:36:10 +0000
Subject: [PATCH 59/77] fix: don't overflow the stack when taking the digest of
 a large public key.

The DER form of a 4096-bit key does not fit into 512 bytes.
---
 src/certificate_chain.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/certificate_chain.cc b/src/certificate_chain.cc
index d54d8fb..016f6d0 100644
--- a/src/certificate_chain.cc
+++ b/src/certificate_chain.cc
@@ -127,12 +127,13 @@ string
 dcp::public_key_digest(RSA* public_key)
 {
 	/* Convert public key to DER (binary) format */
-	unsigned char buffer[512];
-	unsigned char* buffer_ptr = buffer;
-	auto length = i2d_RSA_PUBKEY(public_key, &buffer_ptr);
+	auto length = i2d_RSA_PUBKEY(public_key, nullptr);
 	if (length < 0) {
 		throw MiscError("Could not convert public key to DER");
 	}
+	std::vector<unsigned char> buffer(length);
+	auto buffer_ptr = buffer.data();
+	i2d_RSA_PUBKEY(public_key, &buffer_ptr);
 
 	/* Hash it with SHA1 (without the first 24 bytes, for reasons that are not entirely clear) */
 
@@ -141,7 +142,7 @@ dcp::public_key_digest(RSA* public_key)
 		throw dcp::MiscError ("could not init SHA1 context");
 	}
 
-	if (!SHA1_Update(&context, buffer + 24, length - 24)) {
+	if (!SHA1_Update(&context, buffer.data() + 24, length - 24)) {
 		throw dcp::MiscError ("could not update SHA1 digest");
 	}
 
-- 
2.43.0


From b87c2caf34176e68d21aab04857eae94e013b58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:42:32 +0000
Subject: [PATCH 60/77] fix: don't overflow the stack when taking the
 thumbprint of a large certificate.

The size was checked only after the buffer had been written.
---
 src/certificate.cc | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/certificate.cc b/src/certificate.cc
index 1b62abc..ca1c0f7 100644
--- a/src/certificate.cc
+++ b/src/certificate.cc
@@ -432,22 +432,27 @@ Certificate::thumbprint () const
 {
 	DCP_ASSERT (_certificate);
 
-	uint8_t buffer[8192];
-	uint8_t* p = buffer;
+#if OPENSSL_VERSION_NUMBER > 0x10100000L
+	auto const length = i2d_re_X509_tbs(_certificate, nullptr);
+#else
+	auto const length = i2d_X509_CINF (_certificate->cert_info, nullptr);
+#endif
+	if (length < 0) {
+		throw MiscError ("could not convert certificate to DER");
+	}
+
+	std::vector<uint8_t> buffer(length);
+	auto p = buffer.data();
 
 #if OPENSSL_VERSION_NUMBER > 0x10100000L
 	i2d_re_X509_tbs(_certificate, &p);
 #else
 	i2d_X509_CINF (_certificate->cert_info, &p);
 #endif
-	unsigned int const length = p - buffer;
-	if (length > sizeof (buffer)) {
-		throw MiscError ("buffer too small to generate thumbprint");
-	}
 
 	SHA_CTX sha;
 	SHA1_Init (&sha);
-	SHA1_Update (&sha, buffer, length);
+	SHA1_Update (&sha, buffer.data(), length);
 	uint8_t digest[20];
 	SHA1_Final (digest, &sha);
 
-- 
2.43.0


From 900ccc43d600398b515f6e3ff3fad31c8979ce30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:50:24 +0000
Subject: [PATCH 61/77] fix: keep ContentAuthenticator when reading a KDM.

Otherwise it is lost, and the signature made invalid, when the KDM is written again.
---
 src/encrypted_kdm.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/encrypted_kdm.cc b/src/encrypted_kdm.cc
index 23cbb0b..f0e066b 100644
--- a/src/encrypted_kdm.cc
+++ b/src/encrypted_kdm.cc
@@ -398,6 +398,7 @@ public:
 	explicit KDMRequiredExtensions (shared_ptr<const cxml::Node> node)
 		: recipient (node->node_child ("Recipient"))
 		, composition_playlist_id (remove_urn_uuid (node->string_child ("CompositionPlaylistId")))
+		, content_authenticator (node->optional_string_child ("ContentAuthenticator"))
 		, content_title_text (node->string_child ("ContentTitleText"))
 		, not_valid_before (node->string_child ("ContentKeysNotValidBefore"))
 		, not_valid_after (node->string_child ("ContentKeysNotValidAfter"))
-- 
2.43.0


From 9f58f43ec9aa37cfa01a4bbdbc8794f5173d184d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:50:24 +0000
Subject: [PATCH 62/77] fix: decrypt KDMs which are made for certificates with
 keys of more than 2048 bits.

The encrypted values were cut off at 256 bytes.
---
 src/decrypted_kdm.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/decrypted_kdm.cc b/src/decrypted_kdm.cc
index c8daeba..d81d193 100644
--- a/src/decrypted_kdm.cc
+++ b/src/decrypted_kdm.cc
@@ -160,12 +160,12 @@ DecryptedKDM::DecryptedKDM (EncryptedKDM const & kdm, string private_key)
 
 	for (auto const& i: kdm.keys()) {
 		/* Decode the base-64-encoded cipher value from the KDM */
-		unsigned char cipher_value[256];
-		int const cipher_value_len = base64_decode (i, cipher_value, sizeof (cipher_value));
+		std::vector<unsigned char> cipher_value(i.length());
+		int const cipher_value_len = base64_decode (i, cipher_value.data(), cipher_value.size());
 
 		/* Decrypt it */
 		auto decrypted = new unsigned char[RSA_size(rsa)];
-		int const decrypted_len = RSA_private_decrypt (cipher_value_len, cipher_value, decrypted, rsa, RSA_PKCS1_OAEP_PADDING);
+		int const decrypted_len = RSA_private_decrypt (cipher_value_len, cipher_value.data(), decrypted, rsa, RSA_PKCS1_OAEP_PADDING);
 		if (decrypted_len == -1) {
 			delete[] decrypted;
 #if OPENSSL_VERSION_NUMBER > 0x10100000L
-- 
2.43.0


From 743f56cf1362e2ecd5dfc7c7756515159baddea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:50:24 +0000
Subject: [PATCH 63/77] fix: cope with assets that are not encrypted when
 making a KDM for a CPL.

They have no key ID, so they need no key.
---
 src/decrypted_kdm.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decrypted_kdm.cc b/src/decrypted_kdm.cc
index d81d193..9da4601 100644
--- a/src/decrypted_kdm.cc
+++ b/src/decrypted_kdm.cc
@@ -307,7 +307,7 @@ DecryptedKDM::DecryptedKDM (
 	/* Create DecryptedKDMKey objects for each encryptable asset */
 	bool did_one = false;
 	for (auto i: cpl->reel_file_assets()) {
-		if (i->encryptable()) {
+		if (i->encryptable() && i->key_id()) {
 			add_key (i->key_type().get(), i->key_id().get(), key, cpl->id(), Standard::SMPTE);
 			did_one = true;
 		}
-- 
2.43.0


From 56eb7c62881861afb9720e5b06ab164b324ab607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:07:43 +0000
Subject: [PATCH 64/77] fix: report the right code block sizes when verifying
 JPEG2000.

The size was reported as twice its real value, and an out-of-range
exponent caused an overflow.
---
 src/verify_j2k.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/verify_j2k.cc b/src/verify_j2k.cc
index f7f9117..522bff5 100644
--- a/src/verify_j2k.cc
+++ b/src/verify_j2k.cc
@@ -248,13 +248,13 @@ dcp::verify_j2k(shared_ptr<const Data> j2k, int start_index, int frame_index, in
 				auto log_code_block_width = get_8();
 				if (log_code_block_width != 3) {
 					notes.push_back(
-						VerificationNote(VerificationNote::Code::INVALID_JPEG2000_CODE_BLOCK_WIDTH).set_code_block_width(4 * (2 << log_code_block_width))
+						VerificationNote(VerificationNote::Code::INVALID_JPEG2000_CODE_BLOCK_WIDTH).set_code_block_width(4 << (log_code_block_width & 0xf))
 					);
 				}
 				auto log_code_block_height = get_8();
 				if (log_code_block_height != 3) {
 					notes.push_back(
-						VerificationNote(VerificationNote::Code::INVALID_JPEG2000_CODE_BLOCK_HEIGHT).set_code_block_height(4 * (2 << log_code_block_height))
+						VerificationNote(VerificationNote::Code::INVALID_JPEG2000_CODE_BLOCK_HEIGHT).set_code_block_height(4 << (log_code_block_height & 0xf))
 					);
 				}
 				require_8(0, "invalid mode variations");
-- 
2.43.0


From 4cdc1da1776520e8d2d1d4dc346af9093ff69956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:07:43 +0000
Subject: [PATCH 65/77] fix: notice JPEG2000 codestreams that are cut short
 inside a segment.

Skipping over the rest of a segment could move past the end of the data,
after which the codestream was taken to be good.
---
 src/verify_j2k.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/verify_j2k.cc b/src/verify_j2k.cc
index 522bff5..c96b6eb 100644
--- a/src/verify_j2k.cc
+++ b/src/verify_j2k.cc
@@ -138,6 +138,13 @@ dcp::verify_j2k(shared_ptr<const Data> j2k, int start_index, int frame_index, in
 			return d | (c << 8) | (b << 16) | (a << 24);
 		};
 
+		auto skip = [&](int bytes) {
+			if (bytes < 0 || bytes > (end - ptr)) {
+				throw InvalidCodestream("unexpected end of file");
+			}
+			ptr += bytes;
+		};
+
 		auto require_8 = [&](uint8_t value, string note) {
 			auto v = get_8 ();
 			if (v != value) {
@@ -279,7 +286,7 @@ dcp::verify_j2k(shared_ptr<const Data> j2k, int start_index, int frame_index, in
 				if (!fourk && guard_bits != 1) {
 					notes.push_back(VerificationNote(VerificationNote::Code::INVALID_JPEG2000_GUARD_BITS_FOR_2K).set_guard_bits(guard_bits));
 				}
-				ptr += L_qcd - 3;
+				skip(L_qcd - 3);
 			} else if (*marker_name == "COC") {
 				get_16(); // length
 				auto const coc_component_number = get_8();
@@ -303,11 +310,11 @@ dcp::verify_j2k(shared_ptr<const Data> j2k, int start_index, int frame_index, in
 				require_8(0x88, "invalid precinct size %1");
 			} else if (*marker_name == "TLM") {
 				auto const len = get_16();
-				ptr += len - 2;
+				skip(len - 2);
 				tlm = true;
 			} else if (*marker_name == "QCC" || *marker_name == "COM") {
 				auto const len = get_16();
-				ptr += len - 2;
+				skip(len - 2);
 			} else if (*marker_name == "POC") {
 				if (main_header_finished) {
 					num_POC_after_main++;
-- 
2.43.0


From c721e4c8114181c5da5b74245d76ac0529443cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:24:11 +0000
Subject: [PATCH 66/77] fix: only compare a PKL's annotation text to the title
 of the one CPL that it lists.

A PKL with three CPLs was treated as if it had one, and a PKL listing one CPL
was compared with the titles of CPLs listed in other PKLs.
---
 src/verify.cc | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/verify.cc b/src/verify.cc
index 1ead5c0..5a737c5 100644
--- a/src/verify.cc
+++ b/src/verify.cc
@@ -1616,19 +1616,22 @@ verify_cpl(Context& context, shared_ptr<const CPL> cpl)
 
 		/* Check that any PKL with a single CPL has its AnnotationText the same as the CPL's ContentTitleText */
 		optional<string> required_annotation_text;
-		for (auto j: i->assets()) {
-			/* See if this is a CPL */
-			for (auto k: context.dcp->cpls()) {
-				if (j->id() == k->id()) {
-					if (!required_annotation_text) {
-						/* First CPL we have found; this is the required AnnotationText unless we find another */
-						required_annotation_text = cpl->content_title_text();
-					} else {
-						/* There's more than one CPL so we don't care what the PKL's AnnotationText is */
-						required_annotation_text = boost::none;
+		if (h) {
+			int cpls = 0;
+			for (auto j: i->assets()) {
+				/* See if this is a CPL */
+				for (auto k: context.dcp->cpls()) {
+					if (j->id() == k->id()) {
+						++cpls;
 					}
 				}
 			}
+			if (cpls == 1) {
+				/* Our CPL is the only one in this PKL.  If there was more than one we wouldn't care what
+				 * the PKL's AnnotationText is.
+				 */
+				required_annotation_text = cpl->content_title_text();
+			}
 		}
 
 		if (required_annotation_text && i->annotation_text() != required_annotation_text) {
-- 
2.43.0


From 70c193df95701f882f9417e73fe6e044a441db0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:24:11 +0000
Subject: [PATCH 67/77] fix: verify DCPs whose reels have different numbers of
 closed captions.

The details of a closed caption were looked up before checking that there is one.
---
 src/verify.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/verify.cc b/src/verify.cc
index 5a737c5..27aa9ea 100644
--- a/src/verify.cc
+++ b/src/verify.cc
@@ -977,14 +977,14 @@ verify_text_details (
 		bool reel_overlap = false;
 		Errors errors;
 
-		context.reel_index = i;
-		context.asset_id = asset_id(reels[i]);
-		dcp::ScopeGuard sg = [&context]() { context.reel_index = boost::none; context.asset_id = boost::none; };
-
 		if (!check(reels[i])) {
 			continue;
 		}
 
+		context.reel_index = i;
+		context.asset_id = asset_id(reels[i]);
+		dcp::ScopeGuard sg = [&context]() { context.reel_index = boost::none; context.asset_id = boost::none; };
+
 		auto reel_xml = xml(reels[i]);
 		if (!reel_xml) {
 			context.add_note(VerificationNote::Code::MISSED_CHECK_OF_ENCRYPTED);
-- 
2.43.0


From a6c28bb2af8483d185516e26234f1fbaa86b3456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:24:28 +0000
Subject: [PATCH 68/77] fix: verify DCPs with subtitles or closed captions
 which are missing or in another DCP.

Verification was abandoned with an exception.
---
 src/verify.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/verify.cc b/src/verify.cc
index 27aa9ea..9415c5c 100644
--- a/src/verify.cc
+++ b/src/verify.cc
@@ -1129,6 +1129,9 @@ verify_closed_caption_details(Context& context, vector<shared_ptr<Reel>> reels)
 		context.reel_index = reel_index;
 		dcp::ScopeGuard sg = [&context]() { context.reel_index = boost::none; };
 		for (auto ccap: reel->closed_captions()) {
+			if (!ccap->asset_ref().resolved()) {
+				continue;
+			}
 			auto reel_xml = ccap->asset()->raw_xml();
 			if (!reel_xml) {
 				context.add_note(VerificationNote::Code::MISSED_CHECK_OF_ENCRYPTED);
@@ -1283,7 +1286,7 @@ verify_text_details(Context& context, vector<shared_ptr<Reel>> reels)
 				return reel->main_subtitle() ? reel->main_subtitle()->id() : string{};
 			},
 			[](shared_ptr<Reel> reel) {
-				return static_cast<bool>(reel->main_subtitle());
+				return reel->main_subtitle() && reel->main_subtitle()->asset_ref().resolved();
 			},
 			[](shared_ptr<Reel> reel) {
 				return reel->main_subtitle()->asset()->raw_xml();
@@ -1303,7 +1306,7 @@ verify_text_details(Context& context, vector<shared_ptr<Reel>> reels)
 				return reel->closed_captions()[i]->id();
 			},
 			[i](shared_ptr<Reel> reel) {
-				return i < reel->closed_captions().size();
+				return i < reel->closed_captions().size() && reel->closed_captions()[i]->asset_ref().resolved();
 			},
 			[i](shared_ptr<Reel> reel) {
 				return reel->closed_captions()[i]->asset()->raw_xml();
@@ -1773,7 +1776,7 @@ verify_cpl(Context& context, shared_ptr<const CPL> cpl)
 			context.reel_index = reel_index;
 			dcp::ScopeGuard sg = [&context]() { context.reel_index = boost::none; };
 			for (auto i: reel->closed_captions()) {
-				if (i->asset()) {
+				if (i->asset_ref().resolved()) {
 					verify_text_lines_and_characters(i->asset(), 32, 32, &result);
 				}
 			}
-- 
2.43.0


From a276605bec6f96a6f5d1198ca955838381f32226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:24:28 +0000
Subject: [PATCH 69/77] fix: do not repeat the same note about a JPEG2000
 codestream for every frame.

The existing notes have the CPL, reel and asset filled in, so they must also be
filled in before looking for a new note amongst them.
---
 src/verify_internal.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/verify_internal.h b/src/verify_internal.h
index 3399dec..392db92 100644
--- a/src/verify_internal.h
+++ b/src/verify_internal.h
@@ -93,7 +93,7 @@ public:
 	Context(Context const&) = delete;
 	Context& operator=(Context const&) = delete;
 
-	void add_note(dcp::VerificationNote note)
+	dcp::VerificationNote with_location(dcp::VerificationNote note) const
 	{
 		if (cpl) {
 			note.set_cpl_id(cpl->id());
@@ -104,7 +104,12 @@ public:
 		if (asset_id) {
 			note.set_asset_id(*asset_id);
 		}
-		notes.push_back(std::move(note));
+		return note;
+	}
+
+	void add_note(dcp::VerificationNote note)
+	{
+		notes.push_back(with_location(std::move(note)));
 	}
 
 	template<typename... Args>
@@ -115,7 +120,7 @@ public:
 
 	void add_note_if_not_existing(dcp::VerificationNote note)
 	{
-		if (find(notes.begin(), notes.end(), note) == notes.end()) {
+		if (find(notes.begin(), notes.end(), with_location(note)) == notes.end()) {
 			add_note(note);
 		}
 	}
-- 
2.43.0


From bd0751ee3f7d8e95df60265905de7d7c6dc4daad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:36:21 +0000
Subject: [PATCH 70/77] fix: count subtitle lines and characters from only
 those which are on screen at the same time.

Subtitles which shared a line with others were counted for ever, and those which
started as others ended could be counted together.
---
 src/verify.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/verify.cc b/src/verify.cc
index 9415c5c..3761727 100644
--- a/src/verify.cc
+++ b/src/verify.cc
@@ -1213,7 +1213,9 @@ dcp::verify_text_lines_and_characters(
 
 	/* Make a list of "subtitle starts" and "subtitle ends" events */
 	for (auto j: asset->texts()) {
-		if (auto text = dynamic_pointer_cast<const TextString>(j)) {
+		auto text = dynamic_pointer_cast<const TextString>(j);
+		/* Anything with no length, or a negative one, will never be seen */
+		if (text && text->in() < text->out()) {
 			auto in = make_shared<Event>(text->in(), position(text), utf8_strlen(text->text()));
 			events.push_back(in);
 			events.push_back(make_shared<Event>(text->out(), in));
@@ -1221,7 +1223,11 @@ dcp::verify_text_lines_and_characters(
 	}
 
 	std::sort(events.begin(), events.end(), [](shared_ptr<Event> const& a, shared_ptr<Event> const& b) {
-		return a->time < b->time;
+		if (a->time != b->time) {
+			return a->time < b->time;
+		}
+		/* A subtitle which ends at some time has gone before one which starts then */
+		return a->start && !b->start;
 	});
 
 	/* The number of characters currently displayed at different vertical positions, i.e. on
@@ -1251,7 +1257,7 @@ dcp::verify_text_lines_and_characters(
 			 */
 			if (iter != current.end()) {
 				DCP_ASSERT (current.find(i->start->position) != current.end());
-				auto current_position = current[i->start->position];
+				auto& current_position = current[i->start->position];
 				auto iter = std::find(current_position.begin(), current_position.end(), i->start);
 				if (iter != current_position.end()) {
 					current_position.erase(iter);
-- 
2.43.0


From 7d840d07778bfb2eb6a6cc074a180fc57d72d4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:17:58 +0000
Subject: [PATCH 71/77] fix: do not copy from a null pointer when copying an
 image with no ICC profile.

---
 src/openjpeg_image.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/openjpeg_image.cc b/src/openjpeg_image.cc
index c963d2b..3d8c9bf 100644
--- a/src/openjpeg_image.cc
+++ b/src/openjpeg_image.cc
@@ -70,9 +70,11 @@ OpenJPEGImage::OpenJPEGImage (OpenJPEGImage const & other)
 		memcpy (_opj_image->comps[i].data, other._opj_image->comps[i].data, data_size);
 	}
 
-	_opj_image->icc_profile_buf = reinterpret_cast<OPJ_BYTE*> (malloc (_opj_image->icc_profile_len));
-	DCP_ASSERT (_opj_image->icc_profile_buf);
-	memcpy (_opj_image->icc_profile_buf, other._opj_image->icc_profile_buf, _opj_image->icc_profile_len);
+	if (other._opj_image->icc_profile_buf) {
+		_opj_image->icc_profile_buf = reinterpret_cast<OPJ_BYTE*> (malloc (_opj_image->icc_profile_len));
+		DCP_ASSERT (_opj_image->icc_profile_buf);
+		memcpy (_opj_image->icc_profile_buf, other._opj_image->icc_profile_buf, _opj_image->icc_profile_len);
+	}
 }
 
 
-- 
2.43.0


From 50ede5ad0cdf5b9190a8846fcd587972a3c50a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:20:45 +0000
Subject: [PATCH 72/77] fix: give the right size for JPEG2000 images which are
 decompressed at a reduced size.

---
 src/j2k_transcode.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/j2k_transcode.cc b/src/j2k_transcode.cc
index 9af647e..1435840 100644
--- a/src/j2k_transcode.cc
+++ b/src/j2k_transcode.cc
@@ -183,8 +183,9 @@ dcp::decompress_j2k (uint8_t const * data, int64_t size, int reduce)
 	opj_destroy_codec (decoder);
 	opj_stream_destroy (stream);
 
-	image->x1 = rint (float(image->x1) / pow (2.0f, reduce));
-	image->y1 = rint (float(image->y1) / pow (2.0f, reduce));
+	/* OpenJPEG rounds up when it reduces the size */
+	image->x1 = image->comps[0].w;
+	image->y1 = image->comps[0].h;
 	return std::make_shared<OpenJPEGImage>(image);
 }
 
-- 
2.43.0


From d1584f6b0a73b72a4fe322584e3f3c227d2a128e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:25:17 +0000
Subject: [PATCH 73/77] fix: describe CPLs with invalid namespaces by their
 filenames, as they do not give an ID.

---
 src/verify.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/verify.cc b/src/verify.cc
index 3761727..3306fce 100644
--- a/src/verify.cc
+++ b/src/verify.cc
@@ -2223,7 +2223,7 @@ dcp::note_to_string(VerificationNote note, function<string (string)> process_str
 	case VerificationNote::Code::VALID_CONTENT_VERSION_LABEL_TEXT:
 		return compose("CPL has valid <ContentVersion> %1", *note.content_version());
 	case VerificationNote::Code::INVALID_CPL_NAMESPACE:
-		return compose("The namespace %1 in CPL %2 is invalid", *note.xml_namespace(), note.cpl_id().get());
+		return compose("The namespace %1 in CPL %2 is invalid", *note.xml_namespace(), filename());
 	case VerificationNote::Code::MISSING_CPL_CONTENT_VERSION:
 		return compose("The CPL %1 has no <ContentVersion> tag", note.cpl_id().get());
 	case VerificationNote::Code::INVALID_PKL_NAMESPACE:
-- 
2.43.0


From 6f4ef0c4ea45c46610b87ea4b899c7bccf8b35d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:29:56 +0000
Subject: [PATCH 74/77] fix: refuse CPLs with edit rates that are not positive,
 rather than dividing by zero later.

---
 src/reel_asset.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/reel_asset.cc b/src/reel_asset.cc
index 1b346da..4bb379c 100644
--- a/src/reel_asset.cc
+++ b/src/reel_asset.cc
@@ -41,6 +41,7 @@
 #include "compose.hpp"
 #include "dcp_assert.h"
 #include "equality_options.h"
+#include "exceptions.h"
 #include "raw_convert.h"
 #include "reel_asset.h"
 #include "warnings.h"
@@ -81,7 +82,9 @@ ReelAsset::ReelAsset (shared_ptr<const cxml::Node> node)
 	, _edit_rate (Fraction (node->string_child ("EditRate")))
 	, _entry_point (node->optional_number_child<int64_t>("EntryPoint"))
 {
-
+	if (_edit_rate.numerator <= 0 || _edit_rate.denominator <= 0) {
+		boost::throw_exception(XMLError("malformed EditRate " + _edit_rate.as_string()));
+	}
 }
 
 
-- 
2.43.0


From 09de6bc44f2b6bb9e162ee8fa485a71bcc7bfdd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:36:57 +0000
Subject: [PATCH 75/77] fix: do not give arguments the wrong numbers after an
 empty one in String::compose.

---
 src/compose.hpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/compose.hpp b/src/compose.hpp
index 41a4075..e354b93 100644
--- a/src/compose.hpp
+++ b/src/compose.hpp
@@ -122,18 +122,16 @@ namespace StringPrivate
   {
     os += dcp::locale_convert<std::string> (obj);
 
-    if (!os.empty()) {		// manipulators don't produce output
-      for (specification_map::const_iterator i = specs.lower_bound(arg_no), end = specs.upper_bound(arg_no); i != end; ++i) {
-	output_list::iterator pos = i->second;
-	++pos;
+    for (specification_map::const_iterator i = specs.lower_bound(arg_no), end = specs.upper_bound(arg_no); i != end; ++i) {
+      output_list::iterator pos = i->second;
+      ++pos;
 
-	output.insert(pos, os);
-      }
-
-      os = "";
-      ++arg_no;
+      output.insert(pos, os);
     }
 
+    os = "";
+    ++arg_no;
+
     return *this;
   }
 
-- 
2.43.0


From 24658e037e16c1e7730ccb2becf7d7bb7357b7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:04:43 +0000
Subject: [PATCH 76/77] fix: keep the start of a reel as 64 bits when verifying
 JPEG2000, as the rest of verification does, so that it does not overflow.

---
 src/verify_j2k.cc | 2 +-
 src/verify_j2k.h  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/verify_j2k.cc b/src/verify_j2k.cc
index c96b6eb..193ef60 100644
--- a/src/verify_j2k.cc
+++ b/src/verify_j2k.cc
@@ -67,7 +67,7 @@ public:
 
 
 void
-dcp::verify_j2k(shared_ptr<const Data> j2k, int start_index, int frame_index, int frame_rate, vector<VerificationNote>& notes)
+dcp::verify_j2k(shared_ptr<const Data> j2k, int64_t start_index, int frame_index, int frame_rate, vector<VerificationNote>& notes)
 {
 	/* See ITU-T T800 (visible on https://github.com/Ymagis/ClairMeta/issues/130) */
 	unsigned int const max_tile_part_size = std::floor(200e6 / (8 * frame_rate));
diff --git a/src/verify_j2k.h b/src/verify_j2k.h
index dbfc488..fac1c34 100644
--- a/src/verify_j2k.h
+++ b/src/verify_j2k.h
@@ -56,7 +56,7 @@ class Data;
  *  @param frame_rate Video frame rate (in frames per second) to calculate how big the tile parts
  *  can be.
  */
-void verify_j2k(std::shared_ptr<const Data> data, int start_index, int frame_index, int frame_rate, std::vector<VerificationNote>& notes);
+void verify_j2k(std::shared_ptr<const Data> data, int64_t start_index, int frame_index, int frame_rate, std::vector<VerificationNote>& notes);
 
 
 }
-- 
2.43.0


From 6d4fcba63ae1c64ea94291fc1702f06b61cced06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:01:47 +0000
Subject: [PATCH 77/77] fix: refuse text of dates and times with fields that
 are out of range

---
 src/local_time.cc | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/local_time.cc b/src/local_time.cc
index d8e098a..90db767 100644
--- a/src/local_time.cc
+++ b/src/local_time.cc
@@ -139,12 +139,29 @@ LocalTime::LocalTime (string s)
 		throw TimeFormatError(s);
 	}
 
-	_year = lexical_cast<int>(s.substr(0, 4));
-	_month = lexical_cast<int>(s.substr(5, 2));
-	_day = lexical_cast<int>(s.substr(8, 2));
-	_hour = lexical_cast<int>(s.substr(11, 2));
-	_minute = lexical_cast<int>(s.substr(14, 2));
-	_second = lexical_cast<int>(s.substr(17, 2));
+	auto get = [&s](size_t position, size_t length, int minimum, int maximum) {
+		auto const text = s.substr(position, length);
+		if (text.find_first_not_of("0123456789") != string::npos) {
+			throw TimeFormatError(s);
+		}
+		auto const value = lexical_cast<int>(text);
+		if (value < minimum || value > maximum) {
+			throw TimeFormatError(s);
+		}
+		return value;
+	};
+
+	_year = get(0, 4, 0, 9999);
+	_month = get(5, 2, 1, 12);
+
+	bool const leap = (_year % 4 == 0 && _year % 100 != 0) || _year % 400 == 0;
+	int const days[] = { 31, leap ? 29 : 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
+
+	_day = get(8, 2, 1, days[_month - 1]);
+	_hour = get(11, 2, 0, 23);
+	_minute = get(14, 2, 0, 59);
+	/* There may be a leap second */
+	_second = get(17, 2, 0, 60);
 
 	size_t pos = 19;
 
@@ -174,8 +191,8 @@ LocalTime::LocalTime (string s)
 			throw TimeFormatError(s);
 		}
 
-		_offset.set_hour(lexical_cast<int>(s.substr(pos + 1, 2)));
-		_offset.set_minute(lexical_cast<int>(s.substr(pos + 4, 2)));
+		_offset.set_hour(get(pos + 1, 2, 0, 14));
+		_offset.set_minute(get(pos + 4, 2, 0, 59));
 
 		if (s[pos] == '-') {
 			_offset.set_hour(-_offset.hour());
-- 
2.43.0

