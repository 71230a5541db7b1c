From 3468ae3219e849f4129c6552f4738baf86eb3a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:25 +0000
Subject: [PATCH 01/47] fix: compose ecliptic precession via J2000 in the right
 order

setup_ecliptic_precession() for two epochs, neither of them J2000, multiplied
inverse(J2000->from) and (J2000->to) in the wrong order, so the result was not
the rotation from year_from to year_to.
---
 precess.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/precess.cpp b/precess.cpp
index 25138f2..a9a26b8 100644
--- a/precess.cpp
+++ b/precess.cpp
@@ -188,9 +188,9 @@ int DLL_FUNC setup_ecliptic_precession( double DLLPTR *matrix,
          setup_ecliptic_precession_from_j2000( tmatrix, year_to);
          for( i = 0; i < 3; i++)
             for( j = 0; j < 3; j++)
-               product[j + i * 3] = matrix[i * 3    ] * tmatrix[j]
-                                  + matrix[i * 3 + 1] * tmatrix[j + 3]
-                                  + matrix[i * 3 + 2] * tmatrix[j + 6];
+               product[j + i * 3] = tmatrix[i * 3    ] * matrix[j]
+                                  + tmatrix[i * 3 + 1] * matrix[j + 3]
+                                  + tmatrix[i * 3 + 2] * matrix[j + 6];
          memcpy( matrix, product, 9 * sizeof( double));
          }
       }
-- 
2.43.0


From 4be49f6c32f67325a8ac96e668abf61a970a8cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:26 +0000
Subject: [PATCH 02/47] fix: Hebrew new year postponed when the molad falls
 exactly at noon

Molad zaken applies from 18h 0p on; years 75795, 82082 and 88369 AM (molad
exactly at 18h 0p) started two days early.
---
 date.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/date.cpp b/date.cpp
index 58c1b7c..2455c79 100644
--- a/date.cpp
+++ b/date.cpp
@@ -305,7 +305,7 @@ static void get_hebrew_year_data( const long year, long *days, char *month_data)
             day++;
       else
          {
-         if( halakim > 18L * 1080L)
+         if( halakim >= 18L * 1080L)
             day++;
          if( mod( day, 7L) == 1 || mod( day, 7L) == 4 || mod( day, 7L) == 6L)
             day++;
-- 
2.43.0


From 5e75c2c324f8f0421403f966294c61e7851e4912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:28 +0000
Subject: [PATCH 03/47] fix: Persian year 2327 gets a proper last month

The length of the last supported Persian year is found from the start of year
2328, for which jalali_jd0() returned its out-of-range marker (Esfand 2327 came
out with 126 days).
---
 date.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/date.cpp b/date.cpp
index 2455c79..6cc74df 100644
--- a/date.cpp
+++ b/date.cpp
@@ -470,7 +470,7 @@ static void get_revolutionary_year_data( const long year, long *days,
 static long jalali_jd0( const int jalali_year)
 {
    static const short breaks[12] = { -708, -221,   -3,    6,  394,  720,
-                                      786, 1145, 1635, 1701, 1866, 2328 };
+                                      786, 1145, 1635, 1701, 1866, 2329 };
    static const short deltas[12] = { 1108, 1047,  984, 1249,  952,  891,
                                       930,  866,  869,  844,  848,  852 };
    long rval;
-- 
2.43.0


From 09df3eb422b816c4e7883fa0dc863649c36bd286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:29 +0000
Subject: [PATCH 04/47] fix: unpack natural satellite number 100 correctly

'SK03JA00' was shown as 'S/2003 J 00': the leading base-62 digit 10 ('A') was
treated as a single decimal digit.
---
 unpack.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpack.cpp b/unpack.cpp
index ddf3972..8ecba57 100644
--- a/unpack.cpp
+++ b/unpack.cpp
@@ -226,7 +226,7 @@ int unpack_mpc_desig( char *obuff, const char *packed)
             obuff[7] = packed[8];       /* planet identifier */
             obuff[8] = ' ';
             i = 9;
-            if( digit > 10)
+            if( digit >= 10)
                obuff[i++] = '0' + digit / 10;
             if( digit)
                obuff[i++] = '0' + digit % 10;
-- 
2.43.0


From d2c6aaebeae39693086fad33675f8c92e5c66c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:42 +0000
Subject: [PATCH 05/47] fix: tdb_minus_utc() mixed days and seconds

tdb_minus_tdt() and td_minus_utc() both return seconds; dividing only the
former by 86400 lost the (up to 1.7 ms) TDB-TDT term.
---
 delta_t.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delta_t.cpp b/delta_t.cpp
index c6ffd21..96f6570 100644
--- a/delta_t.cpp
+++ b/delta_t.cpp
@@ -461,5 +461,5 @@ double DLL_FUNC tdb_minus_utc( const double jd_utc)
 {
    const double t_cen = (jd_utc - J2000) / 36525.;
 
-   return( tdb_minus_tdt( t_cen) / seconds_per_day + td_minus_utc( jd_utc));
+   return( tdb_minus_tdt( t_cen) + td_minus_utc( jd_utc));
 }
-- 
2.43.0


From eccc9f2549096fdf62219b0f3886c04c7d2046ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:47 +0000
Subject: [PATCH 06/47] fix: unpack_mpc_desig: buffer bound too small for long
 satellite numerals

Unpacking e.g. 'S748S' = Saturn DCCXLVIII ended the process in strlcat_err,
because the (internal) bound of 16 bytes was smaller than the name.  Other
branches of the function already allow 24 bytes.
---
 unpack.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpack.cpp b/unpack.cpp
index 8ecba57..e323873 100644
--- a/unpack.cpp
+++ b/unpack.cpp
@@ -169,7 +169,7 @@ int unpack_mpc_desig( char *obuff, const char *packed)
    size_t i;
    int mask = 1, digit_mask = 0, space_mask = 0, digit;
    char provisional_desig[40];
-   const size_t obuff_size = 16;
+   const size_t obuff_size = 24;
 
    if( *packed == '$')         /* Find_Orb extension to allow storing of */
       {                        /* an unpacked name,  up to 11 chars */
-- 
2.43.0


From 924ff7304c6e01ab5da9d3041156d41909d977e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:55 +0000
Subject: [PATCH 07/47] fix: azimuth/hour angle sign for an observer at a pole

The polar special cases of the alt/az conversions returned the mirror image of
the limit taken as the latitude approaches the pole.
---
 alt_az.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alt_az.cpp b/alt_az.cpp
index 10078de..9464794 100644
--- a/alt_az.cpp
+++ b/alt_az.cpp
@@ -35,7 +35,7 @@ static void ra_dec_to_alt_az( const double hr_ang, const double dec,
 
    *alt = asine( sin( lat) * sin( dec) + cos_lat * cos( dec) * cos( hr_ang));
    if( cos_lat < .00001)         /* polar case */
-      *az = hr_ang;
+      *az = (lat > 0. ? -hr_ang : PI + hr_ang);
    else
       {
       temp = (sin( dec) - sin( *alt) * sin( lat)) / (cos( *alt) * cos_lat);
@@ -99,7 +99,7 @@ static void alt_az_to_ra_dec( double alt, double az,
    sin_dec = sin( lat) * sin( alt) + cos_lat * cos( alt) * cos( az);
    *dec = asine( sin_dec);
    if( cos_lat < .00001)         /* polar case */
-      *hr_ang = az + PI;
+      *hr_ang = (lat > 0. ? PI - az : az);
    else
       {
       temp = cos_lat * cos( *dec);
-- 
2.43.0


From a3d99c85b5938a960cd85e40c047953799df1a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:55 +0000
Subject: [PATCH 08/47] fix: point_to_ellipse distance for a point on the minor
 axis

The nearest point of the ellipse is (0, b), so a site on the rotation axis was
given an altitude about 21 km too low.
---
 mpc_code.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpc_code.cpp b/mpc_code.cpp
index 5a3d6c0..5e78764 100644
--- a/mpc_code.cpp
+++ b/mpc_code.cpp
@@ -167,7 +167,7 @@ double point_to_ellipse( const double a, const double b,
       {
       lat = PI / 2.;
       if( dist)
-         *dist = fy - a;
+         *dist = fy - b;
       }
    else
       {
-- 
2.43.0


From 9489275e9055cca660db4bc3a951a5690de4bceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:55 +0000
Subject: [PATCH 09/47] fix: planet_axis_ratio read before its table for a
 negative planet index

---
 mpc_code.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpc_code.cpp b/mpc_code.cpp
index 5e78764..603e3bf 100644
--- a/mpc_code.cpp
+++ b/mpc_code.cpp
@@ -94,7 +94,7 @@ const double polar_radii[N_POLAR_RADII] = {
 
 double planet_axis_ratio( const int planet_idx)
 {
-   return( planet_idx >= N_POLAR_RADII ?
+   return( planet_idx < 0 || planet_idx >= N_POLAR_RADII ?
             1 : polar_radii[planet_idx] / equatorial_radii[planet_idx]);
 }
 
-- 
2.43.0


From 04eec2e6178b55ccd0547b6a06e48b7904d85a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:50 +0000
Subject: [PATCH 10/47] fix: cycle counts without a packed form are not packed

---
 mpc_fmt.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mpc_fmt.cpp b/mpc_fmt.cpp
index d0ece99..31f6192 100644
--- a/mpc_fmt.cpp
+++ b/mpc_fmt.cpp
@@ -802,7 +802,7 @@ int create_mpc_packed_desig( char *packed_desig, const char *obj_name)
             packed_desig[10] = int_to_mutant_hex_char( sub_designator % 10);
             packed_desig[9] = int_to_mutant_hex_char( sub_designator / 10);
             }
-         else if( number >= 2000 && number < 2062)
+         else if( number >= 2000 && number < 2062 && isupper( packed_desig[11]))
             {
             int n = (sub_designator - 620) * 25 + packed_desig[11] - 'A';
 
@@ -818,6 +818,8 @@ int create_mpc_packed_desig( char *packed_desig, const char *obj_name)
                encode_value_in_mutant_hex( packed_desig + 8, 4, n);
                }
             }
+         else     /* no packed form exists for this cycle number */
+            mangled_designation = true;
          while( isdigit( obj_name[i]))
             i++;
          if( comet_desig)
-- 
2.43.0


From 0bdc839af9d96995272b483a624e8d549a90874a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:53 +0000
Subject: [PATCH 11/47] fix: undecipherable names are copied into a blank
 packed designation

---
 mpc_fmt.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpc_fmt.cpp b/mpc_fmt.cpp
index 31f6192..1c38ae6 100644
--- a/mpc_fmt.cpp
+++ b/mpc_fmt.cpp
@@ -895,6 +895,7 @@ int create_mpc_packed_desig( char *packed_desig, const char *obj_name)
          obj_name -= 2;
          len += 2;
          }
+      memset( packed_desig, ' ', 12);
       if( len <= 7)
          memcpy( packed_desig + 5, obj_name, len);
       else
-- 
2.43.0


From aeb4f88e77b075f5a3277c45dd82745152c24a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:44 +0000
Subject: [PATCH 12/47] fix: empty designation was read past its end

---
 mpc_fmt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpc_fmt.cpp b/mpc_fmt.cpp
index 1c38ae6..12efe79 100644
--- a/mpc_fmt.cpp
+++ b/mpc_fmt.cpp
@@ -715,7 +715,7 @@ int create_mpc_packed_desig( char *packed_desig, const char *obj_name)
       }
                /* Check for comet-style desigs such as 'P/1995 O1' */
                /* and such.  Leading character can be P, C, X, D, or A. */
-   if( obj_name[1] == '/' && strchr( "PCXDA", *obj_name))
+   if( *obj_name && obj_name[1] == '/' && strchr( "PCXDA", *obj_name))
       {
       comet_desig = *obj_name;
       obj_name += 2;
-- 
2.43.0


From 772624fbdb65214b15f83d1e11c9865c9ecdbd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:29 +0000
Subject: [PATCH 13/47] fix: format 200 (ddd. right ascension) was written with
 two digits

---
 mpc_fmt2.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpc_fmt2.cpp b/mpc_fmt2.cpp
index dd40a5d..fea3762 100644
--- a/mpc_fmt2.cpp
+++ b/mpc_fmt2.cpp
@@ -51,7 +51,7 @@ void output_angle_to_buff( char *obuff, double angle, int precision)
    if( (precision >= 100 && precision <= 116) /* decimal quantity, dd.dd... */
         || ( precision >= 200 && precision <= 215)) /* decimal ddd.dd... */
       {
-      const int two_digits = (precision <= 200);
+      const int two_digits = (precision < 200);
 
       n_digits_to_show = precision % 100;
       power_mul = ten_to_the_nth( n_digits_to_show);
-- 
2.43.0


From 9181b75481ae0c84b3d41798781c271d62f77f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:29 +0000
Subject: [PATCH 14/47] fix: format 307 (HHMMSSs) was not read

---
 mpc_fmt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpc_fmt.cpp b/mpc_fmt.cpp
index 12efe79..487a6f1 100644
--- a/mpc_fmt.cpp
+++ b/mpc_fmt.cpp
@@ -359,7 +359,7 @@ static double get_ra_dec( const char *ibuff, int *format, double *precision)
    rval = quick_atof( buff);
    while( isdigit( buff[i]))
       i++;
-   if( i > 7)        /* "packed" highly precise RA/decs described above */
+   if( i > 6)        /* "packed" highly precise RA/decs described above */
       {
       unsigned tval;
       double factor = 1. / 3600.;
-- 
2.43.0


From 7aeb07ac827abe06f0ab199f825e1f19c720e348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:29 +0000
Subject: [PATCH 15/47] fix: URL escapes with lower-case hex digits were
 rejected

---
 cgi_func.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cgi_func.cpp b/cgi_func.cpp
index 6d95d16..a0c4a21 100644
--- a/cgi_func.cpp
+++ b/cgi_func.cpp
@@ -129,6 +129,8 @@ static int get_urlencoded_piece( const char **idata,
                c += c1 - '0';
             else if( c1 >= 'A' && c1 <= 'F')
                c += c1 - 'A' + 10;
+            else if( c1 >= 'a' && c1 <= 'f')
+               c += c1 - 'a' + 10;
             else                    /* wasn't an hex digit: */
                return( -1);         /* not supposed to happen */
             }
-- 
2.43.0


From 42d164f019c842d044d4f1eed7f99ffacc0d6eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:29 +0000
Subject: [PATCH 16/47] fix: malformed URL escape in form data was reported as
 success

---
 cgi_func.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cgi_func.cpp b/cgi_func.cpp
index a0c4a21..7926a16 100644
--- a/cgi_func.cpp
+++ b/cgi_func.cpp
@@ -153,6 +153,8 @@ int get_urlencoded_form_data( const char **idata,
    if( get_urlencoded_piece( idata, field, max_field, '=') != '=')
       return( -1);
    c = get_urlencoded_piece( idata, buff, max_buff, '&');
+   if( c == -1)         /* malformed escape sequence */
+      return( -1);
    return( c != '&' && c > 13);
 }
 
-- 
2.43.0


From 94db46dfd52ca1db9e3f0ad7d6ecfc2ae670e4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:29 +0000
Subject: [PATCH 17/47] fix: quick_strtod overflowed with more than nine digits

---
 mpc_code.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mpc_code.cpp b/mpc_code.cpp
index 603e3bf..17eb16e 100644
--- a/mpc_code.cpp
+++ b/mpc_code.cpp
@@ -217,7 +217,7 @@ robust solution.        */
 double quick_strtod( const char *ibuff, const char **endptr)
 {
    bool is_negative = false, got_a_digit = false;
-   int integer_part = 0;
+   double integer_part = 0.;
    double rval;
 
    if( endptr)
@@ -236,10 +236,10 @@ double quick_strtod( const char *ibuff, const char **endptr)
    while( *ibuff >= '0' && *ibuff <= '9')
       integer_part = integer_part * 10 + (*ibuff++ - '0');
    if( *ibuff != '.')
-      rval = (double)integer_part;
+      rval = integer_part;
    else
       {
-      int frac_part = 0, divisor = 1;
+      double frac_part = 0., divisor = 1.;
 
       ibuff++;
       if( *ibuff < '0' || *ibuff > '9')
@@ -250,7 +250,7 @@ double quick_strtod( const char *ibuff, const char **endptr)
          frac_part = frac_part * 10 + (*ibuff++ - '0');
          divisor *= 10;
          }
-      rval = (double)integer_part + (double)frac_part / (double)divisor;
+      rval = integer_part + frac_part / divisor;
       }
    if( endptr)
       *endptr = ibuff;
-- 
2.43.0


From b722ae62a8dce8597f6a47f811a8211936fc7762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:29 +0000
Subject: [PATCH 18/47] fix: extract_lat_lon read past the end of text ending
 in an angle

---
 mpc_code.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpc_code.cpp b/mpc_code.cpp
index 17eb16e..af796de 100644
--- a/mpc_code.cpp
+++ b/mpc_code.cpp
@@ -563,7 +563,7 @@ static int extract_lat_lon( const char *buff, size_t *bytes_read, double *value)
 /* printf( "From '%s',  got %d, value %f\n", buff, (int)( tptr - buff), *value); */
    if( n_fields && rval == GOT_NOTHING)
       {
-      if( !compass_byte && strchr( compass, *tptr))
+      if( !compass_byte && *tptr && strchr( compass, *tptr))
          {                 /* compass sign after the angle */
          compass_byte = *tptr++;
 /*       printf( "Got byte '%c'; value %f\n", compass_byte, *value); */
-- 
2.43.0


From 6524b89ef38cc5cbcda2b002d3e2ad24720d0bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:29 +0000
Subject: [PATCH 19/47] fix: get_dec_from_string reported a declination beyond
 the pole as read

---
 mpc_code.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpc_code.cpp b/mpc_code.cpp
index af796de..873cb18 100644
--- a/mpc_code.cpp
+++ b/mpc_code.cpp
@@ -690,10 +690,10 @@ double get_dec_from_string( const char *buff, int *bytes_read)
 
       if( !n_fields || rval > 90.)
          *bytes_read = 0;
+      else
+         (*bytes_read)++;
       if( *buff == '-')
          rval = -rval;
-      if( n_fields)
-         (*bytes_read)++;
       return( rval * PI / 180.);
       }
 }
-- 
2.43.0


From 5bebf42d30369ef9758ef7134e93246f4f772aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:29 +0000
Subject: [PATCH 20/47] fix: get_time_from_string overflowed its buffer with 78
 or 79 alternating letters and digits

---
 get_time.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/get_time.cpp b/get_time.cpp
index 85f8be9..e4c7f66 100644
--- a/get_time.cpp
+++ b/get_time.cpp
@@ -412,7 +412,7 @@ long double DLL_FUNC get_time_from_stringl( long double initial_t2k,
    long year, int_rval;
    long double sec, dday;
    long double rval = -J2000, offset = 0., tval;
-   char buff[80];
+   char buff[160];         /* spaces may be inserted,  doubling the length */
    char symbol = 0;
    char *str = buff;
    const long double jan_1_1970 = 2440587.5;      /* starting point for UNIX time */
@@ -421,7 +421,7 @@ long double DLL_FUNC get_time_from_stringl( long double initial_t2k,
       *is_ut = 0;
    while( *time_str == ' ')         /* skip leading spaces */
       time_str++;
-   if( strlen( time_str) >= sizeof( buff) || !*time_str)
+   if( strlen( time_str) >= sizeof( buff) / 2 || !*time_str)
       {
       if( is_ut)
          *is_ut = -3;
-- 
2.43.0


From 7567549152530e7f5080761b633fc99e0916add1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:29 +0000
Subject: [PATCH 21/47] fix: day of week names gave the wrong day when the
 starting time was before 2000

---
 get_time.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/get_time.cpp b/get_time.cpp
index e4c7f66..92c17e8 100644
--- a/get_time.cpp
+++ b/get_time.cpp
@@ -810,7 +810,11 @@ long double DLL_FUNC get_time_from_stringl( long double initial_t2k,
                month = ival;
             else if( (ival = day_of_week_name_to_index( str)) >= 0)
                {
-               ival -= ((long)(initial_t2k + 6.5)) % 7;
+               long curr_day = (long)floorl( initial_t2k + 6.5) % 7;
+
+               if( curr_day < 0)
+                  curr_day += 7;
+               ival -= (int)curr_day;
                if( ival < -3)
                   ival += 7;
                else if( ival > 3)
-- 
2.43.0


From 73eb47b9f613b1ec9ee0f28a46b7e569309443a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:09 +0000
Subject: [PATCH 22/47] fix: full_ctime overflowed a buffer when showing days
 to twelve or more places

---
 miscell.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/miscell.cpp b/miscell.cpp
index 90f472b..2a41165 100644
--- a/miscell.cpp
+++ b/miscell.cpp
@@ -384,7 +384,7 @@ void DLL_FUNC full_ctimel( char *buff, long double t2k, const int format)
       {
       char month_str[25];
       char year_str[20];
-      char day_str[15];
+      char day_str[20];
 
       if( format & FULL_CTIME_MONTHS_AS_DIGITS)
          snprintf_err( month_str, sizeof( month_str), (leading_zeroes ? "%02d" : "%2d"), month);
-- 
2.43.0


From 8c7ad330cdf36d544f0b704e598a1d0cf310cd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:09 +0000
Subject: [PATCH 23/47] fix: full_ctime with FULL_CTIME_ROUNDING rounded (M)JD
 values twice

---
 miscell.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/miscell.cpp b/miscell.cpp
index 2a41165..5192ba2 100644
--- a/miscell.cpp
+++ b/miscell.cpp
@@ -351,6 +351,8 @@ void DLL_FUNC full_ctimel( char *buff, long double t2k, const int format)
       char format_str[10];
 
       snprintf_err( format_str, sizeof( format_str), "JD %%.%dLf", precision);
+      if( format & FULL_CTIME_ROUNDING)
+         t2k -= add_on;          /* snprintf( ) will round the value */
       if( output_format == FULL_CTIME_FORMAT_MJD)
          {
          *buff++ = 'M';
-- 
2.43.0


From e3f66279117f1eeb8e359025749ca8a1d1ad771f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:51 +0000
Subject: [PATCH 24/47] fix: full_ctime cut a digit too many from decimal years
 past 9999 or before -999

---
 miscell.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/miscell.cpp b/miscell.cpp
index 5192ba2..01db82d 100644
--- a/miscell.cpp
+++ b/miscell.cpp
@@ -336,9 +336,7 @@ void DLL_FUNC full_ctimel( char *buff, long double t2k, const int format)
 #else
       snprintf_err( tbuff, sizeof( tbuff), "%21.16Lf", t2k / 365.25 + 2000.);
 #endif
-      tbuff[precision + 5] = '\0';
-      if( !precision)
-         tbuff[4] = '\0';
+      tbuff[strcspn( tbuff, ".") + (precision ? precision + 1 : 0)] = '\0';
       strlcpy_err( buff, tbuff, max_buff_size);
       if( leading_zeroes)
          while( *buff == ' ')
-- 
2.43.0


From 037cad6c1bd62cba28c28d868872a1689431a033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:51 +0000
Subject: [PATCH 25/47] fix: full_ctime with FULL_CTIME_ROUNDING did not round
 decimal years

---
 miscell.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/miscell.cpp b/miscell.cpp
index 01db82d..d544974 100644
--- a/miscell.cpp
+++ b/miscell.cpp
@@ -305,6 +305,7 @@ void DLL_FUNC full_ctimel( char *buff, long double t2k, const int format)
    int day, month;
    long units, i;
    const int leading_zeroes = (format & FULL_CTIME_LEADING_ZEROES);
+   const double days_per_year = 365.25;
    long year, int_t2k, day_of_week;
    long double add_on = 1.;
    long double remains;
@@ -322,7 +323,8 @@ void DLL_FUNC full_ctimel( char *buff, long double t2k, const int format)
    for( i = precision; i; i--)
       add_on /= 10.;
    if( format & FULL_CTIME_ROUNDING)
-      add_on *= 0.5 / (double)units;
+      add_on *= (output_format == FULL_CTIME_FORMAT_YEAR ?
+                     0.5 * days_per_year : 0.5 / (double)units);
    else
       add_on *= 0.05 / seconds_per_day;
    t2k += add_on;
-- 
2.43.0


From 26d68ab6cf0af0a66280626829e929d10e022c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:51 +0000
Subject: [PATCH 26/47] fix: full_ctime dereferenced a null name for the
 thirteenth month of a calendar

---
 miscell.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/miscell.cpp b/miscell.cpp
index d544974..69fb6b1 100644
--- a/miscell.cpp
+++ b/miscell.cpp
@@ -388,7 +388,7 @@ void DLL_FUNC full_ctimel( char *buff, long double t2k, const int format)
       char year_str[20];
       char day_str[20];
 
-      if( format & FULL_CTIME_MONTHS_AS_DIGITS)
+      if( (format & FULL_CTIME_MONTHS_AS_DIGITS) || !set_month_name( month, NULL))
          snprintf_err( month_str, sizeof( month_str), (leading_zeroes ? "%02d" : "%2d"), month);
       else
          strlcpy_err( month_str, set_month_name( month, NULL), sizeof( month_str));
-- 
2.43.0


From 7ce1457092da05314ab1b3be68bdab013e15f859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:59 +0000
Subject: [PATCH 27/47] fix: places exactly on the equator or prime meridian in
 rovers.txt were put at the geocenter

---
 mpc_code.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpc_code.cpp b/mpc_code.cpp
index 873cb18..9dff8fd 100644
--- a/mpc_code.cpp
+++ b/mpc_code.cpp
@@ -342,7 +342,7 @@ int get_mpc_code_info( mpc_code_t *cinfo, const char *buff)
                   cinfo->lat = cinfo->lon = cinfo->alt = 0.;
                }
             cinfo->planet = rval;
-            if( cinfo->lat && cinfo->lon)   /* i.e.,  topocentric */
+            if( cinfo->lat || cinfo->lon)   /* i.e.,  topocentric */
                _set_parallax_constants( cinfo);
             }
          }
-- 
2.43.0


From f330a2aa0df53c61a677cbe3462cdf38411f8c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:36 +0000
Subject: [PATCH 28/47] fix: argument of periapsis mirrored for orbits exactly
 in the reference plane

---
 classel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/classel.cpp b/classel.cpp
index 8faad31..8a1419a 100644
--- a/classel.cpp
+++ b/classel.cpp
@@ -209,7 +209,7 @@ int DLL_FUNC calc_classical_elements( ELEMENTS *elem, const double *r,
          if( cos_arg_per < 0.)
             elem->arg_per = PI - elem->arg_per;
          }
-      if( e[2] < 0.)
+      if( (n0 ? e[2] : e[1] * h[2]) < 0.)
          elem->arg_per = PI + PI - elem->arg_per;
       }
 
-- 
2.43.0


From fba5e62604e24bede9545824e3806cacc7349bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:40 +0000
Subject: [PATCH 29/47] fix: Io's radius vector had the equation-of-centre term
 of its own perijove instead of Ganymede's

---
 jsats.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsats.cpp b/jsats.cpp
index 6684c3b..1d22998 100644
--- a/jsats.cpp
+++ b/jsats.cpp
@@ -163,7 +163,7 @@ int DLL_FUNC calc_jsat_loc( const double jd, double DLLPTR *jsats,
              +  311.e-7 * sin( lon[1] - psi)
              +   93.e-7 * sin( lon[1] - ome4);
       rad[1] = -41339.e-7 * cos( 2. * (l1 - l2))
-               -  387.e-7 * cos( l1 - pi1)
+               -  387.e-7 * cos( l1 - pi3)
                -  214.e-7 * cos( l1 - pi4)
                +  170.e-7 * cos( l1 - l2)
                -  131.e-7 * cos( 4. * (l1 - l2))
-- 
2.43.0


From a26946f96ea80e06c3317380603469a19e8612d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:40 +0000
Subject: [PATCH 30/47] fix: sign of the psi term in Io's latitude

---
 jsats.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsats.cpp b/jsats.cpp
index 1d22998..4ad2c5e 100644
--- a/jsats.cpp
+++ b/jsats.cpp
@@ -160,7 +160,7 @@ int DLL_FUNC calc_jsat_loc( const double jd, double DLLPTR *jsats,
       tan_lat[1] = 6393.e-7 * sin( lon[1] - ome1)
              + 1825.e-7 * sin( lon[1] - ome2)
              +  329.e-7 * sin( lon[1] - ome3)
-             +  311.e-7 * sin( lon[1] - psi)
+             -  311.e-7 * sin( lon[1] - psi)
              +   93.e-7 * sin( lon[1] - ome4);
       rad[1] = -41339.e-7 * cos( 2. * (l1 - l2))
                -  387.e-7 * cos( l1 - pi3)
-- 
2.43.0


From bb6c1272500a3b8db6931aad8493c175c2d031b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:40 +0000
Subject: [PATCH 31/47] fix: last latitude term of Ganymede depended on the
 origin of longitudes

---
 jsats.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsats.cpp b/jsats.cpp
index 4ad2c5e..3752796 100644
--- a/jsats.cpp
+++ b/jsats.cpp
@@ -257,7 +257,7 @@ int DLL_FUNC calc_jsat_loc( const double jd, double DLLPTR *jsats,
                + 321.e-7 * sin( lon[3] + psi - twice_per_plus_g)
                +  51.e-7 * sin( lon[3] - psi + g)
                -  45.e-7 * sin( lon[3] - psi - g)
-               -  45.e-7 * sin( lon[3] - psi - 2. * PER);
+               -  45.e-7 * sin( lon[3] + psi - 2. * PER);
       rad[3] = -14388.e-7 * cos( l3 - pi3)
                 -7919.e-7 * cos( l3 - pi4)
                 +6342.e-7 * cos( l2 - l3)
-- 
2.43.0


From b156fbc4653520e84bca014cd6908a44c4eb6b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:40 +0000
Subject: [PATCH 32/47] fix: Titan's orbital plane was computed with the free
 inclination of Rhea

---
 ssats.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ssats.cpp b/ssats.cpp
index b4437de..ce7c910 100644
--- a/ssats.cpp
+++ b/ssats.cpp
@@ -245,14 +245,17 @@ static int set_ssat_elems( SAT_ELEMS DLLPTR *elems, ELEMENTS DLLPTR *orbit)
          const double Incl1_plus_dIncl = INCL0 - .6303 * PI / 180.;
          const double g0 = 103.199 * PI / 180.;
          const double beta = .3752 * PI / 180.;
+                  /* Titan's gamma0 is .2960 degrees (Rhea's is .3469) : */
+         const double sin_gamma0_titan = .00516615;
+         const double sin_gamma0_titan_tan_half_incl = .00129198;
 
          double big_N = elems->Omega, g;
          double perturb_Omega, perturb_incl;
 
-         elems->lambda += sin_gamma0_tan_half_incl * sin( big_N);
-         perturb_Omega = sin_gamma0 * sin( big_N);
+         elems->lambda += sin_gamma0_titan_tan_half_incl * sin( big_N);
+         perturb_Omega = sin_gamma0_titan * sin( big_N);
          elems->Omega = Omega1_plus_dOmega + perturb_Omega / sin_incl1;
-         perturb_incl = sin_gamma0 * cos( big_N);
+         perturb_incl = sin_gamma0_titan * cos( big_N);
          elems->gamma = Incl1_plus_dIncl + perturb_incl;
          g = elems->omega - elems->Omega - 4.6 * PI / 180.;
          elems->ecc += beta * elems->ecc * (cos( g + g) - cos( g0 + g0));
-- 
2.43.0


From 42975b093d02c209d3944dd3b8a66b076292854f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:40 +0000
Subject: [PATCH 33/47] fix: perturbation of Titan's apse was multiplied by the
 eccentricity

---
 ssats.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssats.cpp b/ssats.cpp
index ce7c910..c8b3b5d 100644
--- a/ssats.cpp
+++ b/ssats.cpp
@@ -259,7 +259,7 @@ static int set_ssat_elems( SAT_ELEMS DLLPTR *elems, ELEMENTS DLLPTR *orbit)
          elems->gamma = Incl1_plus_dIncl + perturb_incl;
          g = elems->omega - elems->Omega - 4.6 * PI / 180.;
          elems->ecc += beta * elems->ecc * (cos( g + g) - cos( g0 + g0));
-         elems->omega += beta * elems->ecc * (sin( g + g) - sin( g0 + g0));
+         elems->omega += beta * (sin( g + g) - sin( g0 + g0));
          }
          break;
       case HYPERION:
-- 
2.43.0


From 060102b5d576e4262855b2dbe63fcf2ad729cfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:40 +0000
Subject: [PATCH 34/47] fix: perturbations of Hyperion's semimajor axis are in
 AU, but were converted from arcseconds

---
 ssats.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ssats.cpp b/ssats.cpp
index c8b3b5d..04bc0e2 100644
--- a/ssats.cpp
+++ b/ssats.cpp
@@ -366,13 +366,13 @@ static int set_ssat_elems( SAT_ELEMS DLLPTR *elems, ELEMENTS DLLPTR *orbit)
          elems->omega += C_omega_2zeta * arg;
 
          arg = cos( tau);
-         elems->semimaj += C_a_tau * arg * SECONDS_TO_AU;
+         elems->semimaj += C_a_tau * arg;
          elems->ecc += C_e_tau * arg;
          arg = cos( zeta + tau);
-         elems->semimaj += C_a_zeta_plus_tau * arg * SECONDS_TO_AU;
+         elems->semimaj += C_a_zeta_plus_tau * arg;
          elems->ecc += C_e_zeta_plus_tau * arg;
          arg = cos( zeta - tau);
-         elems->semimaj += C_a_zeta_minus_tau * arg * SECONDS_TO_AU;
+         elems->semimaj += C_a_zeta_minus_tau * arg;
          elems->ecc += C_e_zeta_minus_tau * arg
                       + C_e_zeta * cos( zeta)
                       + C_e_2zeta * cos( zeta + zeta)
-- 
2.43.0


From df0efba46aa7efd694607041269b0feb00e25445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:40 +0000
Subject: [PATCH 35/47] fix: node and inclination offsets of Hyperion's mean
 orbital plane were interchanged

---
 ssats.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ssats.cpp b/ssats.cpp
index 04bc0e2..7114959 100644
--- a/ssats.cpp
+++ b/ssats.cpp
@@ -303,12 +303,12 @@ static int set_ssat_elems( SAT_ELEMS DLLPTR *elems, ELEMENTS DLLPTR *orbit)
          const double sin_hy_gamma0 =             .011231;
 
                                        /* from (45), p 59 */
-         const double Omega1_plus_dOmega =    ASC_NODE0 - .747 * PI / 180.;
-         const double Incl1_plus_dIncl =          INCL0 - .13 * PI / 180.;
+         const double Omega1_plus_dOmega =    ASC_NODE0 - .13 * PI / 180.;
+         const double Incl1_plus_dIncl =          INCL0 - .747 * PI / 180.;
 /*       const double Omega1_plus_dOmega =    ASC_NODE0 - .0078 * PI / 180.; */
 /*       const double Incl1_plus_dIncl =          INCL0 - .0455 * PI / 180.; */
-         const double sin_Incl1_plus_dIncl =        0.468727;
-         const double tan_half_Incl1_plus_dIncl =   0.248880;
+         const double sin_Incl1_plus_dIncl =        0.459188;
+         const double tan_half_Incl1_plus_dIncl =   0.243170;
 
                                        /* from (44), p 59 */
          const double big_T = (elems->jd - 2442000.5) / 365.25;
-- 
2.43.0


From 31232024269f6c6ed4e30943f3805e8cd10894e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:40 +0000
Subject: [PATCH 36/47] fix: solar terms in Iapetus' orbital plane used the
 node on Titan's orbit

---
 ssats.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ssats.cpp b/ssats.cpp
index 7114959..1237e61 100644
--- a/ssats.cpp
+++ b/ssats.cpp
@@ -436,11 +436,11 @@ static int set_ssat_elems( SAT_ELEMS DLLPTR *elems, ELEMENTS DLLPTR *orbit)
                                   -.06312 * sin( ls)
                                   -.00295 * sin( ls + ls)
                                   -.02231 * sin( ls_plus_gs_2)
-                                  +.00650 * sin( ls_plus_gs_2 + phi);
-         const double d_incl = .04204 * cos( ls_plus_gs_2 + phi)
+                                  +.00650 * sin( ls_plus_gs_2 + psi);
+         const double d_incl = .04204 * cos( ls_plus_gs_2 + psi)
                                +.00235 * cos( l + g1 + lt_plus_gt + phi)
                                +.00360 * cos( l - lt_gt_minus_g1 + phi);
-         const double d_Omega = .04204 * sin( ls_plus_gs_2 + phi)
+         const double d_Omega = .04204 * sin( ls_plus_gs_2 + psi)
                                +.00235 * sin( l + g1 + lt_plus_gt + phi)
                                +.00358 * sin( l - lt_gt_minus_g1 + phi);
 
-- 
2.43.0


From 971590dd990133bb84a0a732fb1d7ee8eae0a40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:49 +0000
Subject: [PATCH 37/47] fix: fix: calc_big_vsop_loc left the file open on
 errors,  accepted partial reads,  and kept a stale cache after a failed one

---
 big_vsop.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/big_vsop.cpp b/big_vsop.cpp
index f99adcb..9603c27 100644
--- a/big_vsop.cpp
+++ b/big_vsop.cpp
@@ -137,9 +137,14 @@ int DLL_FUNC calc_big_vsop_loc( FILE *ifile, const int planet,
       return( -1);                              /* ...then give up. */
    if( curr_planet != planet)
       {                             /* reload the cache */
+      curr_planet = 99;             /* cache is invalid until it's been read */
       fseek( ifile, (size_t)(planet - 1) * 6L * 3L * sizeof( int16_t), SEEK_SET);
-      if( !fread( cache, 3 * 6 + 1, sizeof( int16_t), ifile))
+      if( fread( cache, sizeof( int16_t), 3 * 6 + 1, ifile) != 3 * 6 + 1)
+         {
+         if( close_it)
+            fclose( ifile);
          return( -2);
+         }
       curr_planet = planet;
       }
 
@@ -161,8 +166,12 @@ int DLL_FUNC calc_big_vsop_loc( FILE *ifile, const int planet,
          sum = 0.;
          for( j = loc[1] - loc[0]; j; j--)
             {
-            if( !fread( idata, 3, sizeof( double), ifile))
+            if( fread( idata, sizeof( double), 3, ifile) != 3)
+               {
+               if( close_it)
+                  fclose( ifile);
                return( -3);
+               }
             if( idata[0] > prec || idata[0] < -prec)
                {
                double argument = idata[1] + idata[2] * t;
-- 
2.43.0


From ef411fe006dc8260255aefe5b2d9e587d963268f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:49 +0000
Subject: [PATCH 38/47] fix: fix: ELP-2000/82 series leaked its buffer when cut
 short,  and treated failed reads as series of zero

---
 elp82dat.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/elp82dat.cpp b/elp82dat.cpp
index 3ef9df5..8f51dbe 100644
--- a/elp82dat.cpp
+++ b/elp82dat.cpp
@@ -131,7 +131,8 @@ static void compute_lunar_polynomials( const double t_cen, double *fund,
 #define CHUNK_SIZE 10000
 
 static double add_in_series( FILE *ifile, const int series_no,
-                 const double *fund, const double prec, long n_terms)
+                 const double *fund, const double prec, long n_terms,
+                 int *error)
 {
    double rval = 0.;
    char *tptr, *ibuff;
@@ -174,7 +175,10 @@ static double add_in_series( FILE *ifile, const int series_no,
       printf( "n_terms: %ld\n", n_terms);
       }
 #else
+      {
+      *error = -3;
       return( 0.);
+      }
 #endif
    while( n_terms--)
       {
@@ -182,14 +186,19 @@ static double add_in_series( FILE *ifile, const int series_no,
       double angle;
 
       if( ibuff == tptr)
-         if( !fread( ibuff, chunk_size, term_size, ifile))
+         {
+         if( chunk_size > (size_t)n_terms + 1)     /* last,  partial chunk */
+            chunk_size = (size_t)n_terms + 1;
+         if( fread( ibuff, term_size, chunk_size, ifile) != chunk_size)
             {
+            *error = -4;
             free( ibuff);
             return( 0.);
             }
+         }
       amplitude = *(int32_t *)tptr;
       if( amplitude < lprec && amplitude > -lprec)
-         return( rval * 1.e-5);
+         break;
       switch( series_type)
          {
          case 0:        /* main problem */
@@ -269,7 +278,7 @@ ELP_DATA_HEADER
 static int get_elp_values( FILE *ifile, const double t_cen,
                      const double prec0, double *ovals)
 {
-   int i;
+   int i, error = 0;
    double addition;
    double fund[N_FUND_COEFFS];
    ELP_DATA_HEADER *hdr = (ELP_DATA_HEADER *)malloc( sizeof( ELP_DATA_HEADER));
@@ -302,7 +311,7 @@ static int get_elp_values( FILE *ifile, const double t_cen,
       fseek( ifile, hdr->offsets[i + i], SEEK_SET);
       if( hdr->offsets[i + i + 1])
          addition = add_in_series( ifile, i, fund, prec,
-                                               hdr->offsets[i + i + 1]);
+                                               hdr->offsets[i + i + 1], &error);
       else
          addition = 0.;
       if( series_type == 2 || series_type == 4 ||
@@ -316,7 +325,7 @@ static int get_elp_values( FILE *ifile, const double t_cen,
          ovals[i % 3] += addition * (PI / 180.) / 3600.;
       }
    free( hdr);
-   return( 0);
+   return( error);
 }
 
                /* Laskar's coeffs for precession,  p. 12: */
-- 
2.43.0


From c7f7acd5f5075a67969796068beead22f8e071eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:49 +0000
Subject: [PATCH 39/47] fix: fix: load_ps1996_series accepted partial reads and
 used data it had failed to read

---
 de_plan.cpp | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/de_plan.cpp b/de_plan.cpp
index 613f197..0d352bc 100644
--- a/de_plan.cpp
+++ b/de_plan.cpp
@@ -149,13 +149,16 @@ void * DLL_FUNC load_ps1996_series( FILE *ifile, double jd, int planet_no)
       }
 
    fseek( ifile, (long)(planet_no - 1) * (long)sizeof( int32_t), SEEK_SET);
-   if( !fread( &offset, 1, sizeof( int32_t), ifile))
+   if( !fread( &offset, sizeof( int32_t), 1, ifile))
       read_error = -1;
-   fseek( ifile, offset, SEEK_SET);
-   if( !fread( &header, sizeof( POISSON_HEADER), 1, ifile))
-      read_error = -1;
-   block = (int)floor( (jd - header.tzero) / header.dt);
-   if( block < 0 || block >= header.n_blocks || read_error)
+   else
+      {
+      fseek( ifile, offset, SEEK_SET);
+      if( !fread( &header, sizeof( POISSON_HEADER), 1, ifile))
+         read_error = -1;
+      }
+   block = (read_error ? -1 : (int)floor( (jd - header.tzero) / header.dt));
+   if( block < 0 || block >= header.n_blocks)
       {
       if( close_file)
          fclose( ifile);
@@ -179,16 +182,23 @@ void * DLL_FUNC load_ps1996_series( FILE *ifile, double jd, int planet_no)
       }
    p.fqs = (double *)( rval + 1);
    p.terms = p.fqs + header.total_fqs;
-   if( !fread( p.fqs, (size_t)header.total_fqs, sizeof( double), ifile))
+   if( fread( p.fqs, sizeof( double), (size_t)header.total_fqs, ifile)
+                           != (size_t)header.total_fqs)
       read_error = -3;
-   if( !fread( block_sizes, (size_t)header.n_blocks, sizeof( int16_t), ifile))
+   if( fread( block_sizes, sizeof( int16_t), (size_t)header.n_blocks, ifile)
+                           != (size_t)header.n_blocks)
       read_error = -4;
-   for( i = 0; i < block; i++)
-      jump += (long) block_sizes[i];
-   fseek( ifile, jump, SEEK_CUR);
-   tbuff = (char *)malloc( (size_t)block_sizes[block]);
-   if( tbuff && !fread( tbuff, (size_t)block_sizes[block], 1, ifile))
-      read_error = -5;
+   if( read_error)
+      tbuff = NULL;
+   else
+      {
+      for( i = 0; i < block; i++)
+         jump += (long) block_sizes[i];
+      fseek( ifile, jump, SEEK_CUR);
+      tbuff = (char *)malloc( (size_t)block_sizes[block]);
+      if( tbuff && !fread( tbuff, (size_t)block_sizes[block], 1, ifile))
+         read_error = -5;
+      }
    if( !tbuff || read_error)
       {
       free( rval);
-- 
2.43.0


From d54a11231b47ce7ae0e52a2e642a4b9e88314747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:53 +0000
Subject: [PATCH 40/47] fix: the last object in cospar.txt was reported as
 unknown

---
 cospar.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cospar.cpp b/cospar.cpp
index b5ffb1b..f2ae3c0 100644
--- a/cospar.cpp
+++ b/cospar.cpp
@@ -264,6 +264,8 @@ static int get_cospar_data_from_text_file( int object_number,
             }
          }
       }
+   if( curr_obj_from_file == object_number)
+      done = 1;            /* it was the last object in the file */
    if( !err)
       if( !done)    /* never did find the object... fill with  */
          {          /* semi-random values and signal an error: */
-- 
2.43.0


From 063306c0a2b8d266e4c8fa1a3e8aeae1409ad9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:53 +0000
Subject: [PATCH 41/47] fix: planet_radii( ) left the radii unset if it was
 what loaded cospar.txt

---
 cospar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cospar.cpp b/cospar.cpp
index f2ae3c0..4aea49c 100644
--- a/cospar.cpp
+++ b/cospar.cpp
@@ -122,7 +122,7 @@ static int get_cospar_data_from_text_file( int object_number,
          }
       cospar_text[line] = NULL;
       fclose( ifile);
-      if( !omega)        /* just loading coefficients;  not actually */
+      if( !is_retrograde)   /* just loading coefficients;  not actually */
          return( 0);       /* computing orientations quite yet (see    */
       }                    /* load_cospar_file( ) below)               */
    *is_retrograde = false;
-- 
2.43.0


From a7d03aafa5fdcc3917cf05c5ce399610897efc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:53 +0000
Subject: [PATCH 42/47] fix: orientations were computed from uninitialized
 values if cospar.txt could not be opened, and a failed allocation was used

---
 cospar.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/cospar.cpp b/cospar.cpp
index 4aea49c..00cd2b1 100644
--- a/cospar.cpp
+++ b/cospar.cpp
@@ -78,6 +78,14 @@ static int get_cospar_data_from_text_file( int object_number,
       FILE *ifile = fopen( cospar_filename, "rb");
       int pass;
 
+      if( is_retrograde)         /* in case there's no data to be had */
+         *is_retrograde = false;
+      if( pole_ra && pole_dec)
+         *pole_ra = *pole_dec = 0.;
+      if( omega)
+         *omega = 0.;
+      if( radii)
+         radii[0] = radii[1] = radii[2] = 0.;
       if( !ifile)
          return( -1);
                   /* make two passes through file:  one to count lines */
@@ -117,6 +125,11 @@ static int get_cospar_data_from_text_file( int object_number,
             {
             cospar_text = (char **)malloc( (size_t)(line + 1) * sizeof( char *)
                         + bytes_read);
+            if( !cospar_text)
+               {
+               fclose( ifile);
+               return( -1);
+               }
             cospar_text[0] = (char *)(cospar_text + line + 1);
             }
          }
-- 
2.43.0


From 59779afc5455da3b2fe0f1abe64e21918332a89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:53 +0000
Subject: [PATCH 43/47] fix: rotation rates and orientations from the previous
 file, or from a failure to open it, were returned after load_cospar_file( )

---
 cospar.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/cospar.cpp b/cospar.cpp
index 00cd2b1..638c922 100644
--- a/cospar.cpp
+++ b/cospar.cpp
@@ -33,6 +33,8 @@ Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA
 #define PLANET_SELECTED          -99998
 
 const char *cospar_filename = "cospar.txt";
+static int n_cospar_loads = 0;      /* results found before the latest */
+                                    /* load_cospar_file( ) don't count */
 
 /* Mostly complete code to compute COSPAR planetary,  satellite,  and
 asteroid orientations using data extracted from 'cospar.txt'.  Thus far,
@@ -306,6 +308,7 @@ int DLL_FUNC load_cospar_file( const char *filename)
    int rval, pass;
 
    cospar_filename = filename;
+   n_cospar_loads++;
    for( pass = 0; pass < (filename ? 2 : 1); pass++)
       rval = get_cospar_data_from_text_file( (pass ? 0 : FREE_INTERNAL_DATA),
                     0, 0., NULL, NULL, NULL, NULL, NULL);
@@ -317,18 +320,20 @@ double DLL_FUNC planet_rotation_rate( const int planet_no, const int system_no)
 {
    const double dummy_tdt = 2451545.;     /* not really used */
    bool is_retrograde;
-   static int prev_planet_no = -99, prev_system_no;
+   static int prev_planet_no = NO_OBJECT_SELECTED, prev_system_no, prev_load;
    static double omega;
 
-   if( planet_no != prev_planet_no || system_no != prev_system_no)
+   if( planet_no != prev_planet_no || system_no != prev_system_no
+                           || prev_load != n_cospar_loads)
       {
       const int rval = get_cospar_data_from_text_file( planet_no, system_no,
               dummy_tdt, NULL, NULL, &omega, NULL, &is_retrograde);
 
       if( rval)
          omega = 0.;
-      prev_planet_no = planet_no;
+      prev_planet_no = (rval ? NO_OBJECT_SELECTED : planet_no);
       prev_system_no = system_no;
+      prev_load = n_cospar_loads;
       }
    return( omega);
 }
@@ -363,7 +368,7 @@ int DLL_FUNC calc_planet_orientation( const int planet_no, const int system_no,
 #endif
 {
    static int prev_planet_no = NO_OBJECT_SELECTED;
-   static int prev_system_no = NO_OBJECT_SELECTED, prev_rval = 0;
+   static int prev_system_no = NO_OBJECT_SELECTED, prev_rval = 0, prev_load;
    static double prev_jd = -1.;
    static double prev_matrix[9];
    int i, rval;
@@ -371,7 +376,7 @@ int DLL_FUNC calc_planet_orientation( const int planet_no, const int system_no,
    double pole_ra, pole_dec, omega, tdt;
 
    if( planet_no == prev_planet_no && system_no == prev_system_no
-                           && jd == prev_jd)
+                           && jd == prev_jd && prev_load == n_cospar_loads)
       {
       memcpy( matrix, prev_matrix, 9 * sizeof( double));
       return( prev_rval);
@@ -380,6 +385,7 @@ int DLL_FUNC calc_planet_orientation( const int planet_no, const int system_no,
    prev_planet_no = planet_no;
    prev_system_no = system_no;
    prev_jd = jd;
+   prev_load = n_cospar_loads;
    tdt = jd + td_minus_ut( jd) / seconds_per_day;
 
    if( planet_no == 3)        /* handle earth with "normal" precession: */
@@ -412,6 +418,8 @@ int DLL_FUNC calc_planet_orientation( const int planet_no, const int system_no,
          matrix[i] *= -1.;
    memcpy( prev_matrix, matrix, 9 * sizeof( double));
    prev_rval = rval;
+   if( rval)               /* failures are not worth remembering;  the */
+      prev_planet_no = NO_OBJECT_SELECTED;   /* file may turn up later */
    return( rval);
 }
 
-- 
2.43.0


From 14c9e7f7c417fe5aaef213fd7bafac6acc47d3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:13 +0000
Subject: [PATCH 44/47] fix: the right ascension of the pole of Mars lost its
 time-dependent terms: the line in cospar.txt ended at a non-ASCII minus sign

---
 cospar.txt | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cospar.txt b/cospar.txt
index c463622..eb85ced 100644
--- a/cospar.txt
+++ b/cospar.txt
@@ -141,7 +141,7 @@ Obj: 4002 # Deimos (s)
 
 Obj: 4 # Mars
    r=3396.19,3376.20
-   a0= 317.269202 − 0.10927547T + 0.419057 sin M11
+   a0= 317.269202 - 0.10927547T + 0.419057 sin M11
    d0= 54.432516 - 0.05827105T + 1.591274 cos M12
    W= 176.049863 + 350.891982443297d + 0.584542 sin M13   # (c) See 2018 Jul 17 comments
 
-- 
2.43.0


From fe0ccf3fb3a2ada669e76f4692de12f17617a59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:13 +0000
Subject: [PATCH 45/47] fix: the largest term in the declination of the pole of
 Naiad had the argument 2N1 (used twice) instead of N1

---
 cospar.txt | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cospar.txt b/cospar.txt
index eb85ced..3c41dc9 100644
--- a/cospar.txt
+++ b/cospar.txt
@@ -445,7 +445,7 @@ Obj: 8 # Neptune
 Obj: 8003 # III Naiad
    r=29
    a0=299.36 +0.70 sin N0 -6.49 sin N1 +0.25 sin 2N1
-   d0=43.36 -0.51 cos N0 -4.75 cos 2N1 +0.09 cos 2N1
+   d0=43.36 -0.51 cos N0 -4.75 cos N1 +0.09 cos 2N1
    W=254.06 +1222.8441209d -0.48 sin N0 +4.40 sin N1 -0.27 sin 2N1
 
 Obj: 8004 # IV Thalassa
-- 
2.43.0


From c5157b2255df30ff77a38bf703ee4dac0134c911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:56 +0000
Subject: [PATCH 46/47] fix: EOP_ALLOC_FAILED was never returned by
 load_earth_orientation_params( )

---
 eop_prec.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eop_prec.cpp b/eop_prec.cpp
index fae169f..d5f873e 100644
--- a/eop_prec.cpp
+++ b/eop_prec.cpp
@@ -166,7 +166,7 @@ int DLL_FUNC load_earth_orientation_params( const char *filename,
             if( file_date && buff[16] == 'I')
                *file_date = atoi( buff + 7);
             }
-         if( i < 16371)    /* as of 2016 Oct 29,  should be _at least_ */
+         if( !rval && i < 16371)    /* as of 2016 Oct 29,  should be _at least_ */
             rval = EOP_FILE_WRONG_FORMAT;           /* this many lines */
          if( rval)   /* slightly tricky method to free up eop_data,  if */
             load_earth_orientation_params( NULL, NULL);  /* it's been alloced */
-- 
2.43.0


From 25bf49fcdbfea1b6c95edf4c8c9e38708d561135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:56 +0000
Subject: [PATCH 47/47] fix: the last day of EOPs was reported one day early if
 the file ended with it

---
 eop_prec.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eop_prec.cpp b/eop_prec.cpp
index d5f873e..c1fef8d 100644
--- a/eop_prec.cpp
+++ b/eop_prec.cpp
@@ -170,8 +170,8 @@ int DLL_FUNC load_earth_orientation_params( const char *filename,
             rval = EOP_FILE_WRONG_FORMAT;           /* this many lines */
          if( rval)   /* slightly tricky method to free up eop_data,  if */
             load_earth_orientation_params( NULL, NULL);  /* it's been alloced */
-         else                            /* get MJD for preceding day */
-            rval = atoi( buff + 7) - 1;
+         else                            /* get MJD for last usable day */
+            rval = (int)( eop_jd0 - 2400000.499) + eop_usable - 1;
          }
       if( ifile)
          fclose( ifile);
-- 
2.43.0

