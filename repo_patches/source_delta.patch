From 40630b560a12372c2264432959f584a8d89e1884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:53 +0000
Subject: [PATCH 01/71] fix: compute file size fraction digits without 64-bit
 overflow

Scaling the whole remainder by 10^NumFrac overflows for large units, and
NumFrac + 2 could wrap around.
---
 convert/convert_int.cpp | 23 +++++++----------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/convert/convert_int.cpp b/convert/convert_int.cpp
index 1712940..5e7518d 100644
--- a/convert/convert_int.cpp
+++ b/convert/convert_int.cpp
@@ -161,27 +161,18 @@ namespace CubicleSoft
 
 			if (NumFrac)
 			{
-				if (x < NumFrac + 2)  return false;
+				if (x < 2 || NumFrac > x - 2)  return false;
 
+				// Generate one digit at a time since the whole scaled fraction may not fit into 64 bits.
+				x -= NumFrac;
 				Extra = Num % Divider;
-				for (x2 = 0; x2 < NumFrac; x2++)  Extra *= 10ULL;
-				Extra /= Divider;
-
-				while (Extra && NumFrac && x)
+				for (x2 = 0; x2 < NumFrac; x2++)
 				{
-					Result[--x] = (char)(Extra % 10) + '0';
-					Extra /= 10;
-					NumFrac--;
+					Extra *= 10ULL;
+					Result[x + x2] = (char)(Extra / Divider) + '0';
+					Extra %= Divider;
 				}
 
-				while (NumFrac && x)
-				{
-					Result[--x] = '0';
-					NumFrac--;
-				}
-
-				if (Extra || !x)  return false;
-
 				Result[--x] = DecimalSeparator;
 
 				if (!x)  return false;
-- 
2.43.0


From 65674f8ebd77e82514a2df329dd9db70e8a4d819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:49 +0000
Subject: [PATCH 02/71] fix: report the position after three and four byte
 sequences in ConvertToUTF8

---
 utf8/utf8_util.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utf8/utf8_util.cpp b/utf8/utf8_util.cpp
index f3aa7d8..89ef4df 100644
--- a/utf8/utf8_util.cpp
+++ b/utf8/utf8_util.cpp
@@ -155,14 +155,14 @@ namespace CubicleSoft
 					else if (x + 2 < SrcDataSize && (TempCP & 0xF0) == 0xE0 && (SrcData2[x + 1] & 0xC0) == 0x80 && (SrcData2[x + 2] & 0xC0) == 0x80)
 					{
 						TempCP = (((TempCP & 0x0F) << 12) | (((std::uint32_t)SrcData2[x + 1] & 0x3F) << 6) | ((std::uint32_t)SrcData2[x + 2] & 0x3F));
-						AppendUTF8CodePoint(TempCP, DestData, DestDataSize, y);
 						x += 3;
+						if (AppendUTF8CodePoint(TempCP, DestData, DestDataSize, y) && LastPos != NULL)  *LastPos = x;
 					}
 					else if (x + 3 < SrcDataSize && (TempCP & 0xF8) == 0xF0 && (SrcData2[x + 1] & 0xC0) == 0x80 && (SrcData2[x + 2] & 0xC0) == 0x80 && (SrcData2[x + 3] & 0xC0) == 0x80)
 					{
 						TempCP = (((TempCP & 0x07) << 18) | (((std::uint32_t)SrcData2[x + 1] & 0x3F) << 12) | (((std::uint32_t)SrcData2[x + 2] & 0x3F) << 6) | ((std::uint32_t)SrcData2[x + 3] & 0x3F));
-						if (AppendUTF8CodePoint(TempCP, DestData, DestDataSize, y) && LastPos != NULL)  *LastPos = x;
 						x += 4;
+						if (AppendUTF8CodePoint(TempCP, DestData, DestDataSize, y) && LastPos != NULL)  *LastPos = x;
 					}
 					else  x++;
 				}
-- 
2.43.0


From d0c707d380036c7659a33eab2d735883c8b4becb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:14 +0000
Subject: [PATCH 03/71] fix: do not drop the unit after an unpaired UTF-16 high
 surrogate

---
 utf8/utf8_util.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/utf8/utf8_util.cpp b/utf8/utf8_util.cpp
index 89ef4df..f02dc58 100644
--- a/utf8/utf8_util.cpp
+++ b/utf8/utf8_util.cpp
@@ -179,15 +179,12 @@ namespace CubicleSoft
 					{
 						if (AppendUTF8CodePoint(TempCP, DestData, DestDataSize, y) && LastPos != NULL)  *LastPos = x;
 					}
-					else
+					else if (x + 1 < SrcDataSize && SrcData2[x + 1] >= 0xDC00 && SrcData2[x + 1] <= 0xDFFF)
 					{
 						x++;
 
-						if (x < SrcDataSize && SrcData2[x] >= 0xDC00 && SrcData2[x] <= 0xDFFF)
-						{
-							TempCP = (((TempCP - 0xD800) << 10) | ((std::uint32_t)SrcData2[x] - 0xDC00)) + 0x010000;
-							if (AppendUTF8CodePoint(TempCP, DestData, DestDataSize, y) && LastPos != NULL)  *LastPos = x;
-						}
+						TempCP = (((TempCP - 0xD800) << 10) | ((std::uint32_t)SrcData2[x] - 0xDC00)) + 0x010000;
+						if (AppendUTF8CodePoint(TempCP, DestData, DestDataSize, y) && LastPos != NULL)  *LastPos = x;
 					}
 				}
 			}
-- 
2.43.0


From 0fddbed7760f6c8b80a3e7675d1f170983a6fc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:13 +0000
Subject: [PATCH 04/71] fix: allocate and terminate the whole text in the
 allocating ConvertFromUTF8

---
 utf8/utf8_util.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/utf8/utf8_util.cpp b/utf8/utf8_util.cpp
index f02dc58..dd51ae6 100644
--- a/utf8/utf8_util.cpp
+++ b/utf8/utf8_util.cpp
@@ -3,6 +3,8 @@
 
 #include "utf8_util.h"
 
+#include <cstring>
+
 namespace CubicleSoft
 {
 	namespace UTF8
@@ -53,13 +55,18 @@ namespace CubicleSoft
 			size_t x, y;
 			void *DestData;
 
-			x = strlen(SrcData);
+			x = std::strlen(SrcData);
+			y = 1;
 			ConvertFromUTF8((const std::uint8_t *)SrcData, x, NULL, y, DestWidth);
-			if (DestWidth == 1)  DestData = (AltMalloc != NULL ? (std::uint8_t *)AltMalloc(AltMallocManager, y) : new std::uint8_t[y]);
-			else if (DestWidth == 2)  DestData = (AltMalloc != NULL ? (std::uint16_t *)AltMalloc(AltMallocManager, y * sizeof(uint16_t)) : new uint16_t[y]);
-			else if (DestWidth == 4)  DestData = (AltMalloc != NULL ? (std::uint32_t *)AltMalloc(AltMallocManager, y * sizeof(uint32_t)) : new std::uint32_t[y]);
+			if (DestWidth == 1)  DestData = (AltMalloc != NULL ? (std::uint8_t *)AltMalloc(AltMallocManager, y + 1) : new std::uint8_t[y + 1]);
+			else if (DestWidth == 2)  DestData = (AltMalloc != NULL ? (std::uint16_t *)AltMalloc(AltMallocManager, (y + 1) * sizeof(uint16_t)) : new uint16_t[y + 1]);
+			else if (DestWidth == 4)  DestData = (AltMalloc != NULL ? (std::uint32_t *)AltMalloc(AltMallocManager, (y + 1) * sizeof(uint32_t)) : new std::uint32_t[y + 1]);
 			else  return NULL;
+			if (DestData == NULL)  return NULL;
 			ConvertFromUTF8((const std::uint8_t *)SrcData, x, DestData, y, DestWidth);
+			if (DestWidth == 1)  ((std::uint8_t *)DestData)[y] = 0;
+			else if (DestWidth == 2)  ((std::uint16_t *)DestData)[y] = 0;
+			else  ((std::uint32_t *)DestData)[y] = 0;
 
 			return DestData;
 		}
-- 
2.43.0


From fad366202255b8d7c39d569d70f3bb6e6424c072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:14 +0000
Subject: [PATCH 05/71] fix: use the C library strlen in NextCodePoint

---
 utf8/utf8_util.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utf8/utf8_util.cpp b/utf8/utf8_util.cpp
index dd51ae6..329ee1b 100644
--- a/utf8/utf8_util.cpp
+++ b/utf8/utf8_util.cpp
@@ -343,7 +343,7 @@ namespace CubicleSoft
 			}
 			else
 			{
-				Size = strlen(Str);
+				Size = std::strlen(Str);
 				HasCombiningCP = false;
 
 				ResultCP = Str2[0];
-- 
2.43.0


From 1825505f3e2c7df8823303ca49c01cff5057f7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:39 +0000
Subject: [PATCH 06/71] fix: decode multi-byte sequences in NextCodePoint

---
 utf8/utf8_util.cpp | 38 ++++++++++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/utf8/utf8_util.cpp b/utf8/utf8_util.cpp
index 329ee1b..5439902 100644
--- a/utf8/utf8_util.cpp
+++ b/utf8/utf8_util.cpp
@@ -350,11 +350,25 @@ namespace CubicleSoft
 				if (ResultCP == 0)  return false;
 
 				if (ResultCP <= 0x7F)  Pos++;
-				else if (Pos + 1 < Size && (ResultCP & 0xE0) == 0xC0 && (Str2[Pos + 1] & 0xC0) == 0x80)  Pos += 2;
-				else if (Pos + 2 < Size && (ResultCP & 0xF0) == 0xE0 && (Str2[Pos + 1] & 0xC0) == 0x80 && (Str2[Pos + 2] & 0xC0) == 0x80)  Pos += 3;
-				else if (Pos + 3 < Size && (ResultCP & 0xF8) == 0xF0 && (Str2[Pos + 1] & 0xC0) == 0x80 && (Str2[Pos + 2] & 0xC0) == 0x80 && (Str2[Pos + 3] & 0xC0) == 0x80)  Pos += 4;
+				else if (Pos + 1 < Size && (ResultCP & 0xE0) == 0xC0 && (Str2[Pos + 1] & 0xC0) == 0x80)
+				{
+					ResultCP = (((ResultCP & 0x1F) << 6) | ((std::uint32_t)Str2[Pos + 1] & 0x3F));
+					Pos += 2;
+				}
+				else if (Pos + 2 < Size && (ResultCP & 0xF0) == 0xE0 && (Str2[Pos + 1] & 0xC0) == 0x80 && (Str2[Pos + 2] & 0xC0) == 0x80)
+				{
+					ResultCP = (((ResultCP & 0x0F) << 12) | (((std::uint32_t)Str2[Pos + 1] & 0x3F) << 6) | ((std::uint32_t)Str2[Pos + 2] & 0x3F));
+					Pos += 3;
+				}
+				else if (Pos + 3 < Size && (ResultCP & 0xF8) == 0xF0 && (Str2[Pos + 1] & 0xC0) == 0x80 && (Str2[Pos + 2] & 0xC0) == 0x80 && (Str2[Pos + 3] & 0xC0) == 0x80)
+				{
+					ResultCP = (((ResultCP & 0x07) << 18) | (((std::uint32_t)Str2[Pos + 1] & 0x3F) << 12) | (((std::uint32_t)Str2[Pos + 2] & 0x3F) << 6) | ((std::uint32_t)Str2[Pos + 3] & 0x3F));
+					Pos += 4;
+				}
 				else  return false;
 
+				if (ResultCP == 0)  return false;
+
 				// First character can't be a combining code point.
 				if ((ResultCP >= 0x0300 && ResultCP <= 0x036F) || (ResultCP >= 0x1DC0 && ResultCP <= 0x1DFF) || (ResultCP >= 0x20D0 && ResultCP <= 0x20FF) || (ResultCP >= 0xFE20 && ResultCP <= 0xFE2F))  return false;
 			}
@@ -364,9 +378,21 @@ namespace CubicleSoft
 			if (NextCP != 0)
 			{
 				if (NextCP <= 0x7F)  Pos++;
-				else if (Pos + 1 < Size && (NextCP & 0xE0) == 0xC0 && (Str2[Pos + 1] & 0xC0) == 0x80)  Pos += 2;
-				else if (Pos + 2 < Size && (NextCP & 0xF0) == 0xE0 && (Str2[Pos + 1] & 0xC0) == 0x80 && (Str2[Pos + 2] & 0xC0) == 0x80)  Pos += 3;
-				else if (Pos + 3 < Size && (NextCP & 0xF8) == 0xF0 && (Str2[Pos + 1] & 0xC0) == 0x80 && (Str2[Pos + 2] & 0xC0) == 0x80 && (Str2[Pos + 3] & 0xC0) == 0x80)  Pos += 4;
+				else if (Pos + 1 < Size && (NextCP & 0xE0) == 0xC0 && (Str2[Pos + 1] & 0xC0) == 0x80)
+				{
+					NextCP = (((NextCP & 0x1F) << 6) | ((std::uint32_t)Str2[Pos + 1] & 0x3F));
+					Pos += 2;
+				}
+				else if (Pos + 2 < Size && (NextCP & 0xF0) == 0xE0 && (Str2[Pos + 1] & 0xC0) == 0x80 && (Str2[Pos + 2] & 0xC0) == 0x80)
+				{
+					NextCP = (((NextCP & 0x0F) << 12) | (((std::uint32_t)Str2[Pos + 1] & 0x3F) << 6) | ((std::uint32_t)Str2[Pos + 2] & 0x3F));
+					Pos += 3;
+				}
+				else if (Pos + 3 < Size && (NextCP & 0xF8) == 0xF0 && (Str2[Pos + 1] & 0xC0) == 0x80 && (Str2[Pos + 2] & 0xC0) == 0x80 && (Str2[Pos + 3] & 0xC0) == 0x80)
+				{
+					NextCP = (((NextCP & 0x07) << 18) | (((std::uint32_t)Str2[Pos + 1] & 0x3F) << 12) | (((std::uint32_t)Str2[Pos + 2] & 0x3F) << 6) | ((std::uint32_t)Str2[Pos + 3] & 0x3F));
+					Pos += 4;
+				}
 				else  NextCP = 0;
 			}
 
-- 
2.43.0


From 9dcbd3ba143dfe0c5e2c200530a251e63f7f7eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:40 +0000
Subject: [PATCH 07/71] fix: report the position of the code point found by
 FindCodePoint

---
 utf8/utf8_util.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/utf8/utf8_util.cpp b/utf8/utf8_util.cpp
index 5439902..6c8f4ef 100644
--- a/utf8/utf8_util.cpp
+++ b/utf8/utf8_util.cpp
@@ -312,21 +312,28 @@ namespace CubicleSoft
 
 		bool Util::FindCodePoint(size_t &ResultPos, std::uint32_t CodePoint, const char *Str, bool AllowCombiningCP)
 		{
-			size_t x, y;
+			size_t x, y, x2;
 			std::uint32_t ResultCP, NextCP;
 			bool HasCombiningCP;
 
 			if (!AllowCombiningCP && IsCombiningCodePoint(CodePoint))  return false;
 
 			x = 0;
+			x2 = 0;
 			while (NextCodePoint(ResultCP, NextCP, Str, x, y, HasCombiningCP))
 			{
 				if (ResultCP == CodePoint && (AllowCombiningCP || !HasCombiningCP))
 				{
-					ResultPos = x;
+					ResultPos = x2;
 
 					return true;
 				}
+
+				// Move to the start of the next code point.
+				do
+				{
+					x2++;
+				} while (((std::uint8_t)Str[x2] & 0xC0) == 0x80);
 			}
 
 			return false;
-- 
2.43.0


From b3435fac8af738f1f13a9dbb3c8251fbd2ca8285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:45 +0000
Subject: [PATCH 08/71] fix: advance through the string in the sized
 CalculateStrSize

---
 json/json_serializer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/json/json_serializer.cpp b/json/json_serializer.cpp
index 231a791..d2a193d 100644
--- a/json/json_serializer.cpp
+++ b/json/json_serializer.cpp
@@ -315,6 +315,7 @@ namespace CubicleSoft
 				}
 
 				Result++;
+				Val++;
 				Size--;
 			}
 
-- 
2.43.0


From 87994acf0e0d08f7bf1c023d2a975d5a2b5887c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:46 +0000
Subject: [PATCH 09/71] fix: do not drop unescaped slashes from JSON strings

---
 json/json_serializer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/json/json_serializer.cpp b/json/json_serializer.cpp
index d2a193d..7ef2877 100644
--- a/json/json_serializer.cpp
+++ b/json/json_serializer.cpp
@@ -358,7 +358,7 @@ namespace CubicleSoft
 				{
 					case '"':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = '"';  Val++;  break;
 					case '\\':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = '\\';  Val++;  break;
-					case '/':  if (MxEscapeSlashes)  { MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = '/'; }  Val++;  break;
+					case '/':  if (MxEscapeSlashes)  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = '/';  Val++;  break;
 					case '\b':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 'b';  Val++;  break;
 					case '\f':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 'f';  Val++;  break;
 					case '\n':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 'n';  Val++;  break;
@@ -382,7 +382,7 @@ namespace CubicleSoft
 				{
 					case '"':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = '"';  Val++;  break;
 					case '\\':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = '\\';  Val++;  break;
-					case '/':  if (MxEscapeSlashes)  { MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = '/'; }  Val++;  break;
+					case '/':  if (MxEscapeSlashes)  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = '/';  Val++;  break;
 					case '\b':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 'b';  Val++;  break;
 					case '\f':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 'f';  Val++;  break;
 					case '\n':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 'n';  Val++;  break;
-- 
2.43.0


From 9368e3f786ce32cc5491f9df4dcc9d5a223aa84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:47 +0000
Subject: [PATCH 10/71] fix: escape all control characters in JSON strings

---
 json/json_serializer.cpp | 50 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 48 insertions(+), 2 deletions(-)

diff --git a/json/json_serializer.cpp b/json/json_serializer.cpp
index 7ef2877..5227df6 100644
--- a/json/json_serializer.cpp
+++ b/json/json_serializer.cpp
@@ -275,6 +275,14 @@ namespace CubicleSoft
 
 						break;
 					}
+
+					default:
+					{
+						// Other control characters require a \u00XX escape sequence.
+						if ((std::uint8_t)*Val < 0x20)  Result += 5;
+
+						break;
+					}
 				}
 
 				Result++;
@@ -312,6 +320,14 @@ namespace CubicleSoft
 
 						break;
 					}
+
+					default:
+					{
+						// Other control characters require a \u00XX escape sequence.
+						if ((std::uint8_t)*Val < 0x20)  Result += 5;
+
+						break;
+					}
 				}
 
 				Result++;
@@ -364,7 +380,22 @@ namespace CubicleSoft
 					case '\n':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 'n';  Val++;  break;
 					case '\r':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 'r';  Val++;  break;
 					case '\t':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 't';  Val++;  break;
-					default:  MxBuffer[MxBufferPos++] = *Val++;  break;
+					default:
+					{
+						if ((std::uint8_t)*Val < 0x20)
+						{
+							MxBuffer[MxBufferPos++] = '\\';
+							MxBuffer[MxBufferPos++] = 'u';
+							MxBuffer[MxBufferPos++] = '0';
+							MxBuffer[MxBufferPos++] = '0';
+							MxBuffer[MxBufferPos++] = ((std::uint8_t)*Val < 0x10 ? '0' : '1');
+							MxBuffer[MxBufferPos++] = "0123456789abcdef"[*Val & 0x0F];
+							Val++;
+						}
+						else  MxBuffer[MxBufferPos++] = *Val++;
+
+						break;
+					}
 				}
 			}
 
@@ -388,7 +419,22 @@ namespace CubicleSoft
 					case '\n':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 'n';  Val++;  break;
 					case '\r':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 'r';  Val++;  break;
 					case '\t':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 't';  Val++;  break;
-					default:  MxBuffer[MxBufferPos++] = *Val++;  break;
+					default:
+					{
+						if ((std::uint8_t)*Val < 0x20)
+						{
+							MxBuffer[MxBufferPos++] = '\\';
+							MxBuffer[MxBufferPos++] = 'u';
+							MxBuffer[MxBufferPos++] = '0';
+							MxBuffer[MxBufferPos++] = '0';
+							MxBuffer[MxBufferPos++] = ((std::uint8_t)*Val < 0x10 ? '0' : '1');
+							MxBuffer[MxBufferPos++] = "0123456789abcdef"[*Val & 0x0F];
+							Val++;
+						}
+						else  MxBuffer[MxBufferPos++] = *Val++;
+
+						break;
+					}
 				}
 
 				Size--;
-- 
2.43.0


From d523b9d42e7fce4d465a7c6312e66e18d8c6b0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:53 +0000
Subject: [PATCH 11/71] fix: compare the elements in Static2DArray::operator==

---
 templates/static_2d_array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates/static_2d_array.h b/templates/static_2d_array.h
index 88f5685..0507411 100644
--- a/templates/static_2d_array.h
+++ b/templates/static_2d_array.h
@@ -89,7 +89,7 @@ namespace CubicleSoft
 			if (Width != TempArray.Width || Height != TempArray.Height)  return false;
 
 			size_t x, y = Width * Height;
-			for (x = 0; x < y && baseptr[x] == TempArray.ptr[x]; x++);
+			for (x = 0; x < y && baseptr[x] == TempArray.baseptr[x]; x++);
 			if (x < y)  return false;
 
 			return true;
-- 
2.43.0


From 1c718998249637986f3ab2fa0d1f0d5a4595f097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:58 +0000
Subject: [PATCH 12/71] fix: allocate storage in Static2DArray::operator= for
 non-empty arrays

---
 templates/static_2d_array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates/static_2d_array.h b/templates/static_2d_array.h
index 0507411..6b01f96 100644
--- a/templates/static_2d_array.h
+++ b/templates/static_2d_array.h
@@ -53,7 +53,7 @@ namespace CubicleSoft
 					Height = TempArray.Height;
 
 					size_t y = Width * Height;
-					if (y)
+					if (!y)
 					{
 						baseptr = NULL;
 						ptr = NULL;
-- 
2.43.0


From 0183b69bfcba79b8de0994dbffdeda0ecd3b36fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:22 +0000
Subject: [PATCH 13/71] fix: prepend text that exactly fits a StaticMixedVar

---
 templates/static_mixed_var.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/templates/static_mixed_var.h b/templates/static_mixed_var.h
index d1d060c..3de9d2d 100644
--- a/templates/static_mixed_var.h
+++ b/templates/static_mixed_var.h
@@ -154,7 +154,7 @@ namespace CubicleSoft
 		void PrependStr(const char *str)
 		{
 			size_t y = strlen(str);
-			if (MxStrPos + y < sizeof(MxStr) - 1)
+			if (MxStrPos + y <= sizeof(MxStr) - 1)
 			{
 				memmove(MxStr + y, MxStr, MxStrPos + 1);
 				memcpy(MxStr, str, y);
@@ -164,7 +164,7 @@ namespace CubicleSoft
 
 		void PrependData(const char *str, size_t size)
 		{
-			if (MxStrPos + size < sizeof(MxStr) - 1)
+			if (MxStrPos + size <= sizeof(MxStr) - 1)
 			{
 				memmove(MxStr + size, MxStr, MxStrPos + 1);
 				memcpy(MxStr, str, size);
-- 
2.43.0


From e6d39fbdee6faf468dc7264aa5c23db6bb02a2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:26 +0000
Subject: [PATCH 14/71] fix: terminate the string of a new StaticMixedVar

---
 templates/static_mixed_var.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/templates/static_mixed_var.h b/templates/static_mixed_var.h
index 3de9d2d..48fad3e 100644
--- a/templates/static_mixed_var.h
+++ b/templates/static_mixed_var.h
@@ -35,6 +35,7 @@ namespace CubicleSoft
 
 		StaticMixedVar() : MxMode(MV_None), MxInt(0), MxDouble(0.0), MxStrPos(0)
 		{
+			MxStr[0] = '\0';
 		}
 
 		// Some functions for those who prefer member functions over directly accessing raw class data.
-- 
2.43.0


From b23f1b8201ebf916fc246e8eeda3539f0186d236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:31 +0000
Subject: [PATCH 15/71] fix: make room for 64 binary digits in StaticMixedVar
 integer formatting

---
 templates/static_mixed_var.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/templates/static_mixed_var.h b/templates/static_mixed_var.h
index 48fad3e..52038f9 100644
--- a/templates/static_mixed_var.h
+++ b/templates/static_mixed_var.h
@@ -175,13 +175,13 @@ namespace CubicleSoft
 
 		void PrependInt(const std::int64_t val, size_t radix = 10)
 		{
-			char tempbuffer[44];
+			char tempbuffer[68];
 			if (IntToString(tempbuffer, sizeof(tempbuffer), val, radix))  PrependStr(tempbuffer);
 		}
 
 		void PrependUInt(const std::uint64_t val, size_t radix = 10)
 		{
-			char tempbuffer[44];
+			char tempbuffer[68];
 			if (IntToString(tempbuffer, sizeof(tempbuffer), val, radix))  PrependStr(tempbuffer);
 		}
 
@@ -219,13 +219,13 @@ namespace CubicleSoft
 
 		void AppendInt(const std::int64_t val, size_t radix = 10)
 		{
-			char tempbuffer[44];
+			char tempbuffer[68];
 			if (IntToString(tempbuffer, sizeof(tempbuffer), val, radix))  AppendStr(tempbuffer);
 		}
 
 		void AppendUInt(const std::uint64_t val, size_t radix = 10)
 		{
-			char tempbuffer[44];
+			char tempbuffer[68];
 			if (IntToString(tempbuffer, sizeof(tempbuffer), val, radix))  AppendStr(tempbuffer);
 		}
 
-- 
2.43.0


From 0bdc4112cafc042e73213e98a750539229752143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:38 +0000
Subject: [PATCH 16/71] fix: use the remaining space instead of the source
 length in AppendUTF8

---
 utf8/utf8_mixed_var.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/utf8/utf8_mixed_var.h b/utf8/utf8_mixed_var.h
index 9227fac..74e0dc9 100644
--- a/utf8/utf8_mixed_var.h
+++ b/utf8/utf8_mixed_var.h
@@ -49,10 +49,9 @@ namespace CubicleSoft
 			void AppendUTF8(const WCHAR *src)
 			{
 				size_t srcsize = wcslen(src);
-				if (srcsize > sizeof(this->MxStr) - this->MxStrPos)  srcsize = sizeof(this->MxStr) - this->MxStrPos;
-				Util::ConvertToUTF8(src, srcsize, sizeof(WCHAR), (std::uint8_t *)this->MxStr + this->MxStrPos, srcsize);
-				this->MxStrPos += srcsize;
-				if (this->MxStrPos == sizeof(this->MxStr) || (this->MxStrPos && this->MxStr[this->MxStrPos - 1] == '\0'))  this->MxStrPos--;
+				size_t destsize = sizeof(this->MxStr) - this->MxStrPos - 1;
+				Util::ConvertToUTF8(src, srcsize, sizeof(WCHAR), (std::uint8_t *)this->MxStr + this->MxStrPos, destsize);
+				this->MxStrPos += destsize;
 				this->MxStr[this->MxStrPos] = '\0';
 			}
 		};
-- 
2.43.0


From 2b02831f4f22e06fce5ede3b9bc5d16fee9fb3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:45 +0000
Subject: [PATCH 17/71] fix: do not cut a UTF-8 sequence in SetUTF8

---
 utf8/utf8_mixed_var.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utf8/utf8_mixed_var.h b/utf8/utf8_mixed_var.h
index 74e0dc9..bd5cecf 100644
--- a/utf8/utf8_mixed_var.h
+++ b/utf8/utf8_mixed_var.h
@@ -30,9 +30,9 @@ namespace CubicleSoft
 			void SetUTF8(const WCHAR *src, size_t srcsize)
 			{
 				this->MxMode = MV_Str;
-				this->MxStrPos = sizeof(this->MxStr);
+				this->MxStrPos = sizeof(this->MxStr) - 1;
 				Util::ConvertToUTF8(src, srcsize, sizeof(WCHAR), (std::uint8_t *)this->MxStr, this->MxStrPos);
-				if (this->MxStrPos == sizeof(this->MxStr) || (this->MxStrPos && this->MxStr[this->MxStrPos - 1] == '\0'))  this->MxStrPos--;
+				if (this->MxStrPos && this->MxStr[this->MxStrPos - 1] == '\0')  this->MxStrPos--;
 				this->MxStr[this->MxStrPos] = '\0';
 			}
 
-- 
2.43.0


From 7d5fcaea67ea8c70d7112be51d5efebb9fcaace2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:20 +0000
Subject: [PATCH 18/71] fix: reset stale list links when attaching a node to an
 OrderedHash

---
 templates/detachable_ordered_hash_util.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/templates/detachable_ordered_hash_util.h b/templates/detachable_ordered_hash_util.h
index 48d6cc6..c7c3e17 100644
--- a/templates/detachable_ordered_hash_util.h
+++ b/templates/detachable_ordered_hash_util.h
@@ -271,6 +271,7 @@ public:
 		if (Next == NULL)
 		{
 			Node->PrevListNode = LastListNode;
+			Node->NextListNode = NULL;
 			if (LastListNode != NULL)  LastListNode->NextListNode = Node;
 			LastListNode = Node;
 			if (FirstListNode == NULL)  FirstListNode = LastListNode;
@@ -334,6 +335,7 @@ public:
 		// Insert into the list.
 		if (Prev == NULL)
 		{
+			Node->PrevListNode = NULL;
 			Node->NextListNode = FirstListNode;
 			if (FirstListNode != NULL)  FirstListNode->PrevListNode = Node;
 			FirstListNode = Node;
-- 
2.43.0


From 7310c2e03c7edd025b988468b75d6a3f7d49e0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:26 +0000
Subject: [PATCH 19/71] fix: accept an estimated size of 0 in OrderedHash

---
 templates/detachable_ordered_hash_util.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/templates/detachable_ordered_hash_util.h b/templates/detachable_ordered_hash_util.h
index c7c3e17..905cccc 100644
--- a/templates/detachable_ordered_hash_util.h
+++ b/templates/detachable_ordered_hash_util.h
@@ -24,7 +24,7 @@ public:
 #endif
 		(size_t EstimatedSize = 23, std::uint64_t HashKey = 5381) : UseSipHash(false), Key1(HashKey), Key2(0), HashNodes(NULL), HashSize(0), NextPrimePos(0), FirstListNode(NULL), LastListNode(NULL), NumListNodes(0)
 	{
-		ResizeHash(EstimatedSize);
+		ResizeHash(EstimatedSize ? EstimatedSize : OrderedHashUtil::Primes[0]);
 	}
 
 	// Keys are securely hashed via SipHash-2-4.
@@ -36,7 +36,7 @@ public:
 #endif
 		(size_t EstimatedSize, std::uint64_t HashKey1, std::uint64_t HashKey2) : UseSipHash(true), Key1(HashKey1), Key2(HashKey2), HashNodes(NULL), HashSize(0), NextPrimePos(0), FirstListNode(NULL), LastListNode(NULL), NumListNodes(0)
 	{
-		ResizeHash(EstimatedSize);
+		ResizeHash(EstimatedSize ? EstimatedSize : OrderedHashUtil::Primes[0]);
 	}
 
 #ifdef CUBICLESOFT_DETACHABLE_ORDEREDHASH_NOCOPYASSIGN
-- 
2.43.0


From 18a242078ff2878cf0f1bc846a3154540570f43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:44 +0000
Subject: [PATCH 20/71] fix: link copied nodes into the buckets and list of an
 OrderedHash copy

---
 templates/detachable_ordered_hash_util.h | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/templates/detachable_ordered_hash_util.h b/templates/detachable_ordered_hash_util.h
index 905cccc..c169dba 100644
--- a/templates/detachable_ordered_hash_util.h
+++ b/templates/detachable_ordered_hash_util.h
@@ -76,14 +76,11 @@ public:
 		{
 			// Attach each cloned node to the end of the list.
 			Node2 = new OrderedHashNode<T>(*Node);
+			Node2->PrevListNode = LastListNode;
 			Node2->NextListNode = NULL;
 
 			if (FirstListNode == NULL)  FirstListNode = Node2;
-			else
-			{
-				Node2->PrevListNode = LastListNode;
-				LastListNode->NextListNode = Node2;
-			}
+			else  LastListNode->NextListNode = Node2;
 
 			LastListNode = Node2;
 
@@ -92,6 +89,7 @@ public:
 			x = (size_t)(Node2->HashKey % HashSize);
 			Node2->NextHashNode = HashNodes[x];
 			if (HashNodes[x] != NULL)  HashNodes[x]->PrevHashNode = Node2;
+			HashNodes[x] = Node2;
 
 			Node = Node->NextListNode;
 		}
@@ -131,14 +129,11 @@ public:
 			{
 				// Attach each cloned node to the end of the list.
 				Node2 = new OrderedHashNode<T>(*Node);
+				Node2->PrevListNode = LastListNode;
 				Node2->NextListNode = NULL;
 
 				if (FirstListNode == NULL)  FirstListNode = Node2;
-				else
-				{
-					Node2->PrevListNode = LastListNode;
-					LastListNode->NextListNode = Node2;
-				}
+				else  LastListNode->NextListNode = Node2;
 
 				LastListNode = Node2;
 
@@ -147,6 +142,7 @@ public:
 				x = (size_t)(Node2->HashKey % HashSize);
 				Node2->NextHashNode = HashNodes[x];
 				if (HashNodes[x] != NULL)  HashNodes[x]->PrevHashNode = Node2;
+				HashNodes[x] = Node2;
 
 				Node = Node->NextListNode;
 			}
-- 
2.43.0


From 8525e82ce2ab8ec1cf81017b0deefce9828c24df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:57 +0000
Subject: [PATCH 21/71] fix: stop copying PackedOrderedHash nodes at the end of
 the source array

---
 templates/packed_ordered_hash_util.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/templates/packed_ordered_hash_util.h b/templates/packed_ordered_hash_util.h
index 56f6bbf..10d6e70 100644
--- a/templates/packed_ordered_hash_util.h
+++ b/templates/packed_ordered_hash_util.h
@@ -84,7 +84,7 @@ public:
 		memcpy(HashNodes, TempHash.HashNodes, sizeof(std::uint32_t) * NumNodes);
 		NumUsed = TempHash.NumUsed;
 
-		PackedOrderedHashNode<T> *Node = TempHash.ArrayNodes, *Node2 = ArrayNodes, *LastNode = ArrayNodes + NextNodePos;
+		PackedOrderedHashNode<T> *Node = TempHash.ArrayNodes, *Node2 = ArrayNodes, *LastNode = TempHash.ArrayNodes + TempHash.NextNodePos;
 
 		while (Node != LastNode)
 		{
@@ -147,7 +147,7 @@ public:
 
 			Node = TempHash.ArrayNodes;
 			Node2 = ArrayNodes;
-			LastNode = ArrayNodes + NextNodePos;
+			LastNode = TempHash.ArrayNodes + TempHash.NextNodePos;
 
 			while (Node != LastNode)
 			{
-- 
2.43.0


From 0780dce3084b7aa63a587837426a5815ef2c0ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:07 +0000
Subject: [PATCH 22/71] fix: free the old node array when a PackedOrderedHash
 is resized

---
 templates/packed_ordered_hash_util.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/templates/packed_ordered_hash_util.h b/templates/packed_ordered_hash_util.h
index 10d6e70..7c09955 100644
--- a/templates/packed_ordered_hash_util.h
+++ b/templates/packed_ordered_hash_util.h
@@ -510,6 +510,8 @@ private:
 
 				Node++;
 			}
+
+			delete[] (char *)ArrayNodes;
 		}
 
 		ArrayNodes = ArrayNodes2;
-- 
2.43.0


From 3ee076db476d2bb4d6cc8a215a401803a1a75cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:09 +0000
Subject: [PATCH 23/71] fix: free the previous result when FastReplace is given
 new data

---
 templates/fast_find_replace_util.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/templates/fast_find_replace_util.h b/templates/fast_find_replace_util.h
index d0c8857..8817374 100644
--- a/templates/fast_find_replace_util.h
+++ b/templates/fast_find_replace_util.h
@@ -517,6 +517,15 @@ public:
 	// Only pass in ResultBuffer and ResultBufferSize for static buffers and replacements that will be smaller than the original.
 	void SetData(const T *Data, size_t Size, T *ResultBuffer = NULL, size_t ResultBufferSize = 0)
 	{
+		if (MxData != NULL && MxDataAllocated)
+		{
+#ifdef CUBICLESOFT_FAST_FIND_REPLACE_MEMALLOC
+			AllocType::free(MxAltMallocManager, MxData);
+#else
+			delete[] reinterpret_cast<char *>(MxData);
+#endif
+		}
+
 		MxFind.SetData(Data, Size);
 
 		MxSrcCurr = Data;
-- 
2.43.0


From 699d69bde20e3086ca0a8137587e2e33fab4019f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:11 +0000
Subject: [PATCH 24/71] fix: copy only the existing result when
 FastReplace::FindNext grows it

---
 templates/fast_find_replace_util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates/fast_find_replace_util.h b/templates/fast_find_replace_util.h
index 8817374..01d3605 100644
--- a/templates/fast_find_replace_util.h
+++ b/templates/fast_find_replace_util.h
@@ -572,7 +572,7 @@ public:
 				MxData = reinterpret_cast<T *>(AllocType::realloc(MxAltMallocManager, MxData, (NewSize + MxExtraAlloc) * sizeof(T)));
 #else
 				T *NewData = reinterpret_cast<T *>(new char[(NewSize + MxExtraAlloc) * sizeof(T)]);
-				memcpy(NewData, MxData, NewSize * sizeof(T));
+				memcpy(NewData, MxData, MxDataPos * sizeof(T));
 				delete[] reinterpret_cast<char *>(MxData);
 
 				MxData = NewData;
-- 
2.43.0


From 30938603a972141b7c588dde0e992923fcbef1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:14 +0000
Subject: [PATCH 25/71] fix: do not repeat source data when a FastReplace match
 is not replaced

---
 templates/fast_find_replace_util.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/templates/fast_find_replace_util.h b/templates/fast_find_replace_util.h
index 01d3605..5b22e19 100644
--- a/templates/fast_find_replace_util.h
+++ b/templates/fast_find_replace_util.h
@@ -598,6 +598,7 @@ public:
 		{
 			memcpy(MxData + MxDataPos, MxSrcCurr, SrcDist * sizeof(T));
 			MxDataPos += SrcDist;
+			MxSrcCurr += SrcDist;
 		}
 
 		return NextPos;
-- 
2.43.0


From ce9d7578ca98c18ce3cb8999829e2ead184086d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:16 +0000
Subject: [PATCH 26/71] fix: keep the rest of the data when the FastReplace
 limit is reached

---
 templates/fast_find_replace_util.h | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/templates/fast_find_replace_util.h b/templates/fast_find_replace_util.h
index 5b22e19..d04ca24 100644
--- a/templates/fast_find_replace_util.h
+++ b/templates/fast_find_replace_util.h
@@ -559,6 +559,13 @@ public:
 		const T *NextPos = MxFind.FindNext(UseMemcmp);
 #endif
 
+		return AppendSource(NextPos);
+	}
+
+private:
+	// Appends the source data up to the specified position (or the end of the data) to the result.
+	const T *AppendSource(const T *NextPos)
+	{
 		size_t SrcDist = (NextPos == NULL ? MxSrcEnd : NextPos) - MxSrcCurr;
 
 		// Determine if there is enough space or if the result needs to be resized.
@@ -604,6 +611,7 @@ public:
 		return NextPos;
 	}
 
+public:
 	void Replace(const T *Data, size_t DataSize, size_t PostPatternSize = 0)
 	{
 		if (DataSize)
@@ -724,9 +732,9 @@ public:
 		const T *Pos;
 		size_t Num = 0;
 #ifdef CUBICLESOFT_FAST_FIND_REPLACE_COMPAREFUNC
-		while ((Pos = TempReplace.FindNext(ElementsEqual)) != NULL && Num < Limit)
+		while (Num < Limit && (Pos = TempReplace.FindNext(ElementsEqual)) != NULL)
 #else
-		while ((Pos = TempReplace.FindNext(UseMemcmp)) != NULL && Num < Limit)
+		while (Num < Limit && (Pos = TempReplace.FindNext(UseMemcmp)) != NULL)
 #endif
 		{
 			TempReplace.Replace(ReplaceWith, ReplaceWithSize);
@@ -734,6 +742,9 @@ public:
 			Num++;
 		}
 
+		// Keep the rest of the data when the limit is reached.
+		if (Num >= Limit)  TempReplace.AppendSource(NULL);
+
 		ResultSize = TempReplace.GetDataSize();
 		Result = TempReplace.DetachData();
 
@@ -792,9 +803,9 @@ public:
 		const T *Pos;
 		size_t Num = 0;
 #ifdef CUBICLESOFT_FAST_FIND_REPLACE_COMPAREFUNC
-		while ((Pos = TempReplace.FindNext(ElementsEqual)) != NULL && Num < Limit)
+		while (Num < Limit && (Pos = TempReplace.FindNext(ElementsEqual)) != NULL)
 #else
-		while ((Pos = TempReplace.FindNext(UseMemcmp)) != NULL && Num < Limit)
+		while (Num < Limit && (Pos = TempReplace.FindNext(UseMemcmp)) != NULL)
 #endif
 		{
 			TempReplace.Replace(ReplaceWith, ReplaceWithSize);
@@ -802,6 +813,9 @@ public:
 			Num++;
 		}
 
+		// Keep the rest of the data when the limit is reached.
+		if (Num >= Limit)  TempReplace.AppendSource(NULL);
+
 		ResultSize = TempReplace.GetDataSize();
 
 		return Num;
-- 
2.43.0


From 0cb64454a7e6811307397eab7a6f865af6eab9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:13 +0000
Subject: [PATCH 27/71] fix: TLS::realloc() left a stale size class on large
 blocks

---
 sync/sync_tls.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sync/sync_tls.cpp b/sync/sync_tls.cpp
index a484111..fa9ec26 100644
--- a/sync/sync_tls.cpp
+++ b/sync/sync_tls.cpp
@@ -125,6 +125,9 @@ namespace CubicleSoft
 			{
 				Data2 = ::realloc(((std::uint8_t *)Data) - 1, 1 + NewSize);
 				Data2 = (std::uint8_t *)Data2 + 1;
+
+				// Store the new position.
+				((std::uint8_t *)Data2)[-1] = (std::uint8_t)Pos;
 			}
 			else
 			{
-- 
2.43.0


From c418d6ba81a9fd2fcd2a0bd11c5e94690997a582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:35 +0000
Subject: [PATCH 28/71] fix: TLS::malloc() and realloc() did not handle an
 out-of-memory condition

---
 sync/sync_tls.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sync/sync_tls.cpp b/sync/sync_tls.cpp
index fa9ec26..a823927 100644
--- a/sync/sync_tls.cpp
+++ b/sync/sync_tls.cpp
@@ -78,6 +78,8 @@ namespace CubicleSoft
 			if (MainPtr->GetSize() <= Pos)
 			{
 				Data = ::malloc(Size);
+				if (Data == NULL)  return NULL;
+
 				Data = (std::uint8_t *)Data + 1;
 			}
 			else
@@ -124,6 +126,8 @@ namespace CubicleSoft
 			if (MainPtr->GetSize() <= Pos && MainPtr->GetSize() <= Pos2)
 			{
 				Data2 = ::realloc(((std::uint8_t *)Data) - 1, 1 + NewSize);
+				if (Data2 == NULL)  return NULL;
+
 				Data2 = (std::uint8_t *)Data2 + 1;
 
 				// Store the new position.
@@ -133,6 +137,7 @@ namespace CubicleSoft
 			{
 				// Allocate data.
 				Data2 = malloc(NewSize);
+				if (Data2 == NULL)  return NULL;
 
 				// Copy the data.
 				memcpy(Data2, Data, (1 << Pos2));
-- 
2.43.0


From 0fd908d9c20c17777479c6c47fd1ea05ebfdd737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:39 +0000
Subject: [PATCH 29/71] fix: TLS allocations above half the address space never
 returned

---
 sync/sync_tls.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sync/sync_tls.cpp b/sync/sync_tls.cpp
index a823927..6117826 100644
--- a/sync/sync_tls.cpp
+++ b/sync/sync_tls.cpp
@@ -236,7 +236,7 @@ namespace CubicleSoft
 		{
 			size_t Pos = 3;
 
-			while (((size_t)1 << Pos) < Size)  Pos++;
+			while (Pos < (sizeof(size_t) * 8) - 1 && ((size_t)1 << Pos) < Size)  Pos++;
 			Size = ((size_t)1 << Pos);
 
 			return Pos;
-- 
2.43.0


From db7efef7ec69fbc5b6a1bd0330ad3344f382c975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:48 +0000
Subject: [PATCH 30/71] fix: TLS lost the content of blocks of 2 GB and more

---
 sync/sync_tls.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sync/sync_tls.cpp b/sync/sync_tls.cpp
index 6117826..07dc696 100644
--- a/sync/sync_tls.cpp
+++ b/sync/sync_tls.cpp
@@ -140,7 +140,7 @@ namespace CubicleSoft
 				if (Data2 == NULL)  return NULL;
 
 				// Copy the data.
-				memcpy(Data2, Data, (1 << Pos2));
+				memcpy(Data2, Data, ((size_t)1 << Pos2));
 
 				// Free the previous object.
 				free(Data, Cache);
@@ -154,7 +154,7 @@ namespace CubicleSoft
 			if (Data == NULL)  return NULL;
 
 			// Allocate the appropriate size buffer.
-			size_t Size = (size_t)(1 << ((size_t)((std::uint8_t *)Data)[-1]));
+			size_t Size = ((size_t)1 << ((size_t)((std::uint8_t *)Data)[-1]));
 			void *Data2 = ::malloc(Size);
 			if (Data2 == NULL)  return NULL;
 
@@ -200,7 +200,7 @@ namespace CubicleSoft
 			else
 			{
 				Nodes = (*MainPtr)[Num].GetSize();
-				Size = (size_t)(1 << Num);
+				Size = ((size_t)1 << Num);
 				if (Size < sizeof(QueueNode<char>))  Size = sizeof(QueueNode<char>);
 				Size *= Nodes;
 			}
-- 
2.43.0


From 1960ae3ff03253e8beb68871d6ae4200a6a4a5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:29 +0000
Subject: [PATCH 31/71] fix: TLS::MixedVar copy constructor freed an
 uninitialized pointer

---
 sync/sync_tls.cpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/sync/sync_tls.cpp b/sync/sync_tls.cpp
index 07dc696..946e333 100644
--- a/sync/sync_tls.cpp
+++ b/sync/sync_tls.cpp
@@ -265,16 +265,11 @@ namespace CubicleSoft
 		}
 
 		// Copy constructor.
-		TLS::MixedVar::MixedVar(const TLS::MixedVar &TempVar)
+		TLS::MixedVar::MixedVar(const TLS::MixedVar &TempVar) : MxStr(NULL), MxStrPos(0)
 		{
 			MxTLS = TempVar.MxTLS;
 
 			if (TempVar.MxStr != NULL)  SetData(TempVar.MxStr, TempVar.MxStrPos);
-			else
-			{
-				MxStr = NULL;
-				MxStrPos = 0;
-			}
 
 			MxMode = TempVar.MxMode;
 			MxInt = TempVar.MxInt;
-- 
2.43.0


From 60cc58584b2d35bbf77b8036fcdb4ebdcdf306ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:40 +0000
Subject: [PATCH 32/71] fix: TLS::MixedVar assignment released its string with
 the other variable's allocator

---
 sync/sync_tls.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/sync/sync_tls.cpp b/sync/sync_tls.cpp
index 946e333..c009cda 100644
--- a/sync/sync_tls.cpp
+++ b/sync/sync_tls.cpp
@@ -281,16 +281,15 @@ namespace CubicleSoft
 		{
 			if (this != &TempVar)
 			{
+				// Release the string with the allocator that it came from.
+				if (MxStr != NULL)  MxTLS->free(MxStr);
+
+				MxStr = NULL;
+				MxStrPos = 0;
+
 				MxTLS = TempVar.MxTLS;
 
 				if (TempVar.MxStr != NULL)  SetData(TempVar.MxStr, TempVar.MxStrPos);
-				else
-				{
-					MxTLS->free(MxStr);
-
-					MxStr = NULL;
-					MxStrPos = 0;
-				}
 
 				MxMode = TempVar.MxMode;
 				MxInt = TempVar.MxInt;
-- 
2.43.0


From 2c4cbee2c6066c3511219792ad1bac9e8545bbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:43 +0000
Subject: [PATCH 33/71] fix: TLS::MixedVar::SetSize(0) on an empty variable
 wrote through NULL

---
 sync/sync_tls.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sync/sync_tls.cpp b/sync/sync_tls.cpp
index c009cda..ddafb55 100644
--- a/sync/sync_tls.cpp
+++ b/sync/sync_tls.cpp
@@ -407,7 +407,7 @@ namespace CubicleSoft
 
 		void TLS::MixedVar::SetSize(size_t pos)
 		{
-			if (MxStrPos < pos)  MxStr = (char *)MxTLS->realloc(MxStr, pos + 1);
+			if (MxStr == NULL || MxStrPos < pos)  MxStr = (char *)MxTLS->realloc(MxStr, pos + 1);
 
 			MxStrPos = pos;
 			MxStr[MxStrPos] = '\0';
-- 
2.43.0


From 2095daacf89b9a527d9f51fe2331261b4884a34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:46 +0000
Subject: [PATCH 34/71] fix: TLS::MixedVar integer text was dropped for small
 radixes

---
 sync/sync_tls.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sync/sync_tls.cpp b/sync/sync_tls.cpp
index ddafb55..d89c1d0 100644
--- a/sync/sync_tls.cpp
+++ b/sync/sync_tls.cpp
@@ -332,13 +332,13 @@ namespace CubicleSoft
 
 		void TLS::MixedVar::PrependInt(const std::int64_t val, size_t radix)
 		{
-			char tempbuffer[44];
+			char tempbuffer[68];
 			if (IntToString(tempbuffer, sizeof(tempbuffer), val, radix))  PrependStr(tempbuffer);
 		}
 
 		void TLS::MixedVar::PrependUInt(const std::uint64_t val, size_t radix)
 		{
-			char tempbuffer[44];
+			char tempbuffer[68];
 			if (IntToString(tempbuffer, sizeof(tempbuffer), val, radix))  PrependStr(tempbuffer);
 		}
 
@@ -370,13 +370,13 @@ namespace CubicleSoft
 
 		void TLS::MixedVar::AppendInt(const std::int64_t val, size_t radix)
 		{
-			char tempbuffer[44];
+			char tempbuffer[68];
 			if (IntToString(tempbuffer, sizeof(tempbuffer), val, radix))  AppendStr(tempbuffer);
 		}
 
 		void TLS::MixedVar::AppendUInt(const std::uint64_t val, size_t radix)
 		{
-			char tempbuffer[44];
+			char tempbuffer[68];
 			if (IntToString(tempbuffer, sizeof(tempbuffer), val, radix))  AppendStr(tempbuffer);
 		}
 
-- 
2.43.0


From 1fce205c52ea7904e3de569138e5dc7b9b8b1cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:50 +0000
Subject: [PATCH 35/71] fix: TLS::MixedVar replacement on an empty variable
 wrote through NULL

---
 sync/sync_tls.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sync/sync_tls.cpp b/sync/sync_tls.cpp
index d89c1d0..85daebf 100644
--- a/sync/sync_tls.cpp
+++ b/sync/sync_tls.cpp
@@ -417,6 +417,8 @@ namespace CubicleSoft
 		{
 			size_t Num;
 
+			if (MxStr == NULL)  return 0;
+
 			if (srcsize < destsize)
 			{
 				char *Result;
-- 
2.43.0


From 9b3cb370300a25d7feef1367fac68fd0f1fcc6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:05 +0000
Subject: [PATCH 36/71] fix: in-place replacement copied overlapping ranges
 with memcpy()

---
 templates/fast_find_replace_util.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/templates/fast_find_replace_util.h b/templates/fast_find_replace_util.h
index d04ca24..2f7ed8e 100644
--- a/templates/fast_find_replace_util.h
+++ b/templates/fast_find_replace_util.h
@@ -603,7 +603,8 @@ private:
 
 		if (SrcDist)
 		{
-			memcpy(MxData + MxDataPos, MxSrcCurr, SrcDist * sizeof(T));
+			// The result may be the source itself (in-place replacement).
+			memmove(MxData + MxDataPos, MxSrcCurr, SrcDist * sizeof(T));
 			MxDataPos += SrcDist;
 			MxSrcCurr += SrcDist;
 		}
-- 
2.43.0


From 8b241fb2272dbaea93815adac3e91d4b66b45c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:15 +0000
Subject: [PATCH 37/71] fix: CSPRNG::GetBytes() looped forever when the random
 source failed or delivered short reads

---
 security/security_csprng.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/security/security_csprng.cpp b/security/security_csprng.cpp
index 10f2e0c..f81f23b 100644
--- a/security/security_csprng.cpp
+++ b/security/security_csprng.cpp
@@ -49,15 +49,18 @@ namespace CubicleSoft
 
 			ssize_t BytesRead;
 
-			do
+			while (Size)
 			{
 				do
 				{
 					BytesRead = read(MxURandom, Result, Size);
 				} while (BytesRead < 0 && errno == EINTR);
-			} while (BytesRead != (ssize_t)Size);
 
-			if (BytesRead < 0)  return false;
+				if (BytesRead <= 0)  return false;
+
+				Result += BytesRead;
+				Size -= (size_t)BytesRead;
+			}
 
 			return true;
 		}
-- 
2.43.0


From 71a1aee66515d287c9f84d87c03374d025828e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:11:24 +0000
Subject: [PATCH 38/71] fix: a failing clock left the semaphore's internal
 mutex locked

---
 sync/sync_util.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sync/sync_util.cpp b/sync/sync_util.cpp
index 7599368..88f5992 100644
--- a/sync/sync_util.cpp
+++ b/sync/sync_util.cpp
@@ -411,7 +411,13 @@ namespace CubicleSoft
 			{
 				struct timespec TempTime;
 
-				if (CSGX__ClockGetTimeRealtime(&TempTime) == -1)  return false;
+				if (CSGX__ClockGetTimeRealtime(&TempTime) == -1)
+				{
+					pthread_mutex_unlock(UnixSemaphore.MxMutex);
+
+					return false;
+				}
+
 				TempTime.tv_sec += Wait / 1000;
 				TempTime.tv_nsec += (Wait % 1000) * 1000000;
 				TempTime.tv_sec += TempTime.tv_nsec / 1000000000;
-- 
2.43.0


From 37e10e5b32e1be24455b59300dcff541bacd0a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:30 +0000
Subject: [PATCH 39/71] fix: recreating a Mutex leaked the old one or left a
 named one locked

---
 sync/sync_mutex.cpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/sync/sync_mutex.cpp b/sync/sync_mutex.cpp
index ee4873f..34ca5de 100644
--- a/sync/sync_mutex.cpp
+++ b/sync/sync_mutex.cpp
@@ -157,16 +157,8 @@ namespace CubicleSoft
 			{
 				if (MxOwnerID == Util::GetCurrentThreadID())
 				{
-					if (MxNamed)  Util::UnmapUnixNamedMem(MxMem, Util::GetUnixSemaphoreSize());
-					else
-					{
-						Util::FreeUnixSemaphore(MxPthreadMutex);
+					Util::ReleaseUnixSemaphore(MxPthreadMutex, NULL);
 
-						delete[] MxMem;
-					}
-
-					MxNamed = false;
-					MxMem = NULL;
 					MxCount = 0;
 					MxOwnerID = 0;
 				}
@@ -178,6 +170,20 @@ namespace CubicleSoft
 				}
 			}
 
+			if (MxMem != NULL)
+			{
+				if (MxNamed)  Util::UnmapUnixNamedMem(MxMem, Util::GetUnixSemaphoreSize());
+				else
+				{
+					Util::FreeUnixSemaphore(MxPthreadMutex);
+
+					delete[] MxMem;
+				}
+
+				MxNamed = false;
+				MxMem = NULL;
+			}
+
 			size_t Pos, TempSize = Util::GetUnixSemaphoreSize();
 			MxNamed = (Name != NULL);
 			int Result = Util::InitUnixNamedMem(MxMem, Pos, "/Sync_Mutex", Name, TempSize);
-- 
2.43.0


From e687e6a22be52c8039e7612ecda51e324e671eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:31 +0000
Subject: [PATCH 40/71] fix: Mutex::Lock() before Create() used uninitialized
 memory

---
 sync/sync_mutex.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sync/sync_mutex.cpp b/sync/sync_mutex.cpp
index 34ca5de..729fc14 100644
--- a/sync/sync_mutex.cpp
+++ b/sync/sync_mutex.cpp
@@ -214,6 +214,14 @@ namespace CubicleSoft
 		{
 			if (pthread_mutex_lock(&MxPthreadCritSection) != 0)  return false;
 
+			// Make sure the mutex exists.
+			if (MxMem == NULL)
+			{
+				pthread_mutex_unlock(&MxPthreadCritSection);
+
+				return false;
+			}
+
 			// Check to see if this mutex is already owned by the calling thread.
 			if (MxOwnerID == Util::GetCurrentThreadID())
 			{
-- 
2.43.0


From 4cf784d978fefa32793b867727cd889c806ea335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:05 +0000
Subject: [PATCH 41/71] fix: an auto event fired during a timeout could leave
 another waiter blocked

---
 sync/sync_util.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sync/sync_util.cpp b/sync/sync_util.cpp
index 88f5992..42398e7 100644
--- a/sync/sync_util.cpp
+++ b/sync/sync_util.cpp
@@ -586,7 +586,8 @@ namespace CubicleSoft
 
 				UnixEvent.MxWaiting[0]--;
 
-				if (Result2 == 0)
+				// An event that was fired while timing out may not be able to wake another thread.
+				if (Result2 == 0 || UnixEvent.MxSignaled[0] != '\x00')
 				{
 					// Reset auto events.
 					if (UnixEvent.MxManual[0] == '\x00')  UnixEvent.MxSignaled[0] = '\x00';
-- 
2.43.0


From 11ea8cc2c0e41a834c155bc5b451a144481933cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:15 +0000
Subject: [PATCH 42/71] fix: reopening a named object cleared memory beyond the
 mapping

---
 sync/sync_util.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sync/sync_util.cpp b/sync/sync_util.cpp
index 42398e7..0d5fa43 100644
--- a/sync/sync_util.cpp
+++ b/sync/sync_util.cpp
@@ -280,7 +280,7 @@ namespace CubicleSoft
 							else
 							{
 								// If this is the first reference, reset the RAM to 0's for platform consistency to force a rebuild of the object.
-								memset(MemPtr, 0, Size);
+								memset(MemPtr, 0, Size - StartPos);
 
 								Result = 0;
 							}
-- 
2.43.0


From 7983e5350bbc8b87179271255d606024da433430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:16 +0000
Subject: [PATCH 43/71] fix: a reopened named object was usable by others
 before it was initialized again

---
 sync/sync_util.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sync/sync_util.cpp b/sync/sync_util.cpp
index 0d5fa43..9607149 100644
--- a/sync/sync_util.cpp
+++ b/sync/sync_util.cpp
@@ -287,7 +287,8 @@ namespace CubicleSoft
 
 							RefCountPtr[0]++;
 
-							pthread_mutex_unlock(MutexPtr);
+							// The first reference keeps the lock until the object is ready.
+							if (Result)  pthread_mutex_unlock(MutexPtr);
 						}
 
 						close(fp);
-- 
2.43.0


From 7350f57c60dc1868677b2b2a3b0ef1c2d86a1ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:28 +0000
Subject: [PATCH 44/71] fix: concurrent creation of named objects could leave
 the process umask cleared

---
 sync/sync_util.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sync/sync_util.cpp b/sync/sync_util.cpp
index 9607149..468813a 100644
--- a/sync/sync_util.cpp
+++ b/sync/sync_util.cpp
@@ -210,9 +210,15 @@ namespace CubicleSoft
 				pthread_mutex_t *MutexPtr;
 				std::uint32_t *RefCountPtr;
 
-				// Attempt to create the named shared memory object.
+				// Attempt to create the named shared memory object.  The file mode creation mask is process-wide.
+				static pthread_mutex_t MaskMutex = PTHREAD_MUTEX_INITIALIZER;
+
+				pthread_mutex_lock(&MaskMutex);
 				mode_t PrevMask = umask(0);
 				int fp = shm_open(Name2, O_RDWR | O_CREAT | O_EXCL, 0666);
+				umask(PrevMask);
+				pthread_mutex_unlock(&MaskMutex);
+
 				if (fp > -1)
 				{
 					// Ignore platform errors (for now).
@@ -294,8 +300,6 @@ namespace CubicleSoft
 						close(fp);
 					}
 				}
-
-				umask(PrevMask);
 			}
 
 			return Result;
-- 
2.43.0


From 5fd87160b9d15cda5526d7ba80d08fb1e141d8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:28 +0000
Subject: [PATCH 45/71] fix: SharedMem::First() stayed true after recreating
 the object

---
 sync/sync_sharedmem.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sync/sync_sharedmem.cpp b/sync/sync_sharedmem.cpp
index fdfa1c2..a557dbe 100644
--- a/sync/sync_sharedmem.cpp
+++ b/sync/sync_sharedmem.cpp
@@ -87,6 +87,7 @@ namespace CubicleSoft
 
 			MxMemInternal = NULL;
 			MxMem = NULL;
+			MxFirst = false;
 
 			size_t Pos, TempSize = Size;
 			int Result = Util::InitUnixNamedMem(MxMemInternal, Pos, "/Sync_SharedMem", Name, TempSize);
-- 
2.43.0


From 41837e7452524b953ddb8969f083ada24bacbc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:29 +0000
Subject: [PATCH 46/71] fix: a failed mapping left a named object that nobody
 could ever open

---
 sync/sync_util.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sync/sync_util.cpp b/sync/sync_util.cpp
index 468813a..6f75dda 100644
--- a/sync/sync_util.cpp
+++ b/sync/sync_util.cpp
@@ -227,7 +227,13 @@ namespace CubicleSoft
 					}
 
 					ResultMem = (char *)mmap(NULL, Size, PROT_READ | PROT_WRITE, MAP_SHARED, fp, 0);
-					if (ResultMem == MAP_FAILED)  ResultMem = NULL;
+					if (ResultMem == MAP_FAILED)
+					{
+						// Nobody will ever initialize this object.
+						shm_unlink(Name2);
+
+						ResultMem = NULL;
+					}
 					else
 					{
 						pthread_mutexattr_t MutexAttr;
-- 
2.43.0


From b7e0e0088ba04080004e1b23ecd3f9a853538b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:18 +0000
Subject: [PATCH 47/71] fix: named objects whose sizes differ by a multiple of
 4 GB shared one segment

---
 sync/sync_util.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sync/sync_util.cpp b/sync/sync_util.cpp
index 6f75dda..edf50d0 100644
--- a/sync/sync_util.cpp
+++ b/sync/sync_util.cpp
@@ -155,7 +155,7 @@ namespace CubicleSoft
 					}
 				}
 
-				sprintf(Nums, "-%u-%u-", (unsigned int)GetUnixSystemAlignmentSize(), (unsigned int)Size);
+				sprintf(Nums, "-%u-%llu-", (unsigned int)GetUnixSystemAlignmentSize(), (unsigned long long)Size);
 
 				y = strlen(Nums);
 				for (x = 0; x < y; x++)
-- 
2.43.0


From a9d1bfe367226a659c46dad54e016adc9547ce31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:19 +0000
Subject: [PATCH 48/71] fix: named object sizes near SIZE_MAX wrapped around

---
 sync/sync_util.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sync/sync_util.cpp b/sync/sync_util.cpp
index edf50d0..5989164 100644
--- a/sync/sync_util.cpp
+++ b/sync/sync_util.cpp
@@ -126,6 +126,7 @@ namespace CubicleSoft
 			// First byte indicates initialization status (0 = completely uninitialized, 1 = first mutex initialized, 2 = ready).
 			// Next few bytes are a shared mutex object.
 			// Size bytes follow for whatever.
+			if (Size > (size_t)-1 - StartPos - GetUnixSystemAlignmentSize())  return -1;
 			Size += StartPos;
 			Size = AlignUnixSize(Size);
 
-- 
2.43.0


From c5360f150a482f1dda4611459262412cfe1bccd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:29:37 +0000
Subject: [PATCH 49/71] fix: ReadWriteLock timeouts measured the elapsed time
 in seconds instead of milliseconds

---
 sync/sync_readwritelock.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sync/sync_readwritelock.cpp b/sync/sync_readwritelock.cpp
index a759d8f..8ebffc0 100644
--- a/sync/sync_readwritelock.cpp
+++ b/sync/sync_readwritelock.cpp
@@ -262,13 +262,13 @@ namespace CubicleSoft
 			if (MxMem == NULL)  return false;
 
 			// Get current time in milliseconds.
-			StartTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000000);
+			StartTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000);
 
 			// Acquire the write lock mutex.  Guarantees that readers can't starve the writer.
 			if (!Util::WaitForUnixSemaphore(MxPthreadWWaitMutex, Wait))  return false;
 
 			// Acquire the counter mutex.
-			CurrTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000000);
+			CurrTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000);
 			if (Wait < CurrTime - StartTime || !Util::WaitForUnixSemaphore(MxPthreadRCountMutex, Wait - (CurrTime - StartTime)))
 			{
 				Util::ReleaseUnixSemaphore(MxPthreadWWaitMutex, NULL);
@@ -302,13 +302,13 @@ namespace CubicleSoft
 			if (MxMem == NULL)  return false;
 
 			// Get current time in milliseconds.
-			StartTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000000);
+			StartTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000);
 
 			// Acquire the write lock mutex.
 			if (!Util::WaitForUnixSemaphore(MxPthreadWWaitMutex, Wait))  return false;
 
 			// Wait for readers to reach zero.
-			CurrTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000000);
+			CurrTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000);
 			if (Wait < CurrTime - StartTime || !Util::WaitForUnixEvent(MxPthreadRWaitEvent, Wait - (CurrTime - StartTime)))
 			{
 				Util::ReleaseUnixSemaphore(MxPthreadWWaitMutex, NULL);
-- 
2.43.0


From 1e58db29e4e76d53626efddcf00791f0754828ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:49 +0000
Subject: [PATCH 50/71] fix: File::Write() miscounted after an interrupted
 system call

---
 utf8/utf8_file_dir.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index 672d843..bdb1f3f 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1336,7 +1336,12 @@ namespace CubicleSoft
 			do
 			{
 				BytesWritten = ::write(MxFile, Data, DataSize);
-				if (BytesWritten < 0 && errno != EINTR)  return false;
+				if (BytesWritten < 0)
+				{
+					if (errno == EINTR)  continue;
+
+					return false;
+				}
 
 				DataSize -= BytesWritten;
 				Data += BytesWritten;
-- 
2.43.0


From 3a5c5b97082297d6ee6ca220e1e9bc68717e6b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:05 +0000
Subject: [PATCH 51/71] fix: File::GetCurrPos() was wrong after a partly failed
 write

---
 utf8/utf8_file_dir.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index bdb1f3f..f4a931f 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1346,9 +1346,9 @@ namespace CubicleSoft
 				DataSize -= BytesWritten;
 				Data += BytesWritten;
 				DataWritten += BytesWritten;
+				MxCurrPos += (std::uint64_t)BytesWritten;
+				if (MxCurrPos > MxMaxPos)  MxMaxPos = MxCurrPos;
 			} while (DataSize);
-			MxCurrPos += (std::uint64_t)DataWritten;
-			if (MxCurrPos > MxMaxPos)  MxMaxPos = MxCurrPos;
 
 			return true;
 		}
-- 
2.43.0


From 22028a06c4f0900e7643b2fcbcce50fbeea864cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:18 +0000
Subject: [PATCH 52/71] fix: File::Seek() forward by a huge amount wrapped
 around

---
 utf8/utf8_file_dir.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index f4a931f..ffc98e2 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -142,7 +142,7 @@ namespace CubicleSoft
 			{
 				case File::SeekStart:  TempPos = (Pos <= MxMaxPos ? Pos : MxMaxPos);  break;
 				case File::SeekEnd:  TempPos = (Pos <= MxMaxPos ? MxMaxPos - Pos : 0);  break;
-				case File::SeekForward:  TempPos = (MxCurrPos + Pos <= MxMaxPos ? MxCurrPos + Pos : MxMaxPos);  break;
+				case File::SeekForward:  TempPos = (MxCurrPos <= MxMaxPos && Pos <= MxMaxPos - MxCurrPos ? MxCurrPos + Pos : MxMaxPos);  break;
 				case File::SeekBackward:  TempPos = (MxCurrPos >= Pos ? MxCurrPos - Pos : 0);  break;
 				default:  TempPos = MxCurrPos;  break;
 			}
@@ -1288,7 +1288,7 @@ namespace CubicleSoft
 			{
 				case File::SeekStart:  TempPos = (Pos <= MxMaxPos ? Pos : MxMaxPos);  break;
 				case File::SeekEnd:  TempPos = (Pos <= MxMaxPos ? MxMaxPos - Pos : 0);  break;
-				case File::SeekForward:  TempPos = (MxCurrPos + Pos <= MxMaxPos ? MxCurrPos + Pos : MxMaxPos);  break;
+				case File::SeekForward:  TempPos = (MxCurrPos <= MxMaxPos && Pos <= MxMaxPos - MxCurrPos ? MxCurrPos + Pos : MxMaxPos);  break;
 				case File::SeekBackward:  TempPos = (MxCurrPos >= Pos ? MxCurrPos - Pos : 0);  break;
 				default:  TempPos = MxCurrPos;  break;
 			}
-- 
2.43.0


From b89080686daff28898eec8f983b57b27c3156860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:44 +0000
Subject: [PATCH 53/71] fix: File::GetCurrPos() was wrong after writing with
 O_APPEND

---
 utf8/utf8_file_dir.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index ffc98e2..b1aadae 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1346,7 +1346,10 @@ namespace CubicleSoft
 				DataSize -= BytesWritten;
 				Data += BytesWritten;
 				DataWritten += BytesWritten;
-				MxCurrPos += (std::uint64_t)BytesWritten;
+
+				// O_APPEND writes at the end of the file, not at the current position.
+				off64_t Pos = ::lseek64(MxFile, 0, SEEK_CUR);
+				MxCurrPos = (Pos >= 0 ? (std::uint64_t)Pos : MxCurrPos + (std::uint64_t)BytesWritten);
 				if (MxCurrPos > MxMaxPos)  MxMaxPos = MxCurrPos;
 			} while (DataSize);
 
-- 
2.43.0


From ee57e8d90d33d93f92387fa524fc0761cc89ba93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:44 +0000
Subject: [PATCH 54/71] fix: File::Open() left the file open when it could not
 be locked

---
 utf8/utf8_file_dir.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index b1aadae..4076f9f 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1259,17 +1259,32 @@ namespace CubicleSoft
 			// Closest to Windows support is to just lock exclusively for ShareRead and ShareWrite.
 			if (ShareFlag == ShareNone || ShareFlag == ShareRead || ShareFlag == ShareWrite)
 			{
-				if (::flock(MxFile, LOCK_EX | LOCK_NB) < 0)  return false;
+				if (::flock(MxFile, LOCK_EX | LOCK_NB) < 0)
+				{
+					Close();
+
+					return false;
+				}
 
 				MxLocked = true;
 			}
 			else if (ShareFlag == ShareBoth)
 			{
-				if (::flock(MxFile, LOCK_SH | LOCK_NB) < 0)  return false;
+				if (::flock(MxFile, LOCK_SH | LOCK_NB) < 0)
+				{
+					Close();
+
+					return false;
+				}
 
 				MxLocked = true;
 			}
-			else  return false;
+			else
+			{
+				Close();
+
+				return false;
+			}
 
 			off64_t Pos = ::lseek64(MxFile, 0, SEEK_CUR);
 			MxCurrPos = (Pos >= 0 ? (std::uint64_t)Pos : 0);
-- 
2.43.0


From d91a3f648b4909b29f37928a1830cef84faab83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:36 +0000
Subject: [PATCH 55/71] fix: File::Copy() wrote whole blocks instead of the
 bytes read

---
 utf8/utf8_file_dir.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index 4076f9f..2fcee45 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1621,12 +1621,12 @@ namespace CubicleSoft
 			if (!DestFile.Open(DestFilename2, O_WRONLY | O_CREAT, File::ShareNone, SrcStat.st_mode))  return false;
 
 			std::uint8_t Buffer[8192];
-			size_t y;
+			size_t y, y2;
 
 			// Copy the data.
 			while (SrcFile.Read(Buffer, 8192, y) && y)
 			{
-				DestFile.Write(Buffer, 8192, y);
+				DestFile.Write(Buffer, y, y2);
 			}
 
 			// Truncate the file to the current point.
-- 
2.43.0


From b8e3ea8f1e25fec23645d25148652fd3ad1675d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:38 +0000
Subject: [PATCH 56/71] fix: File::Copy() reported success (and File::Move()
 deleted the source) after a failed read or write

---
 utf8/utf8_file_dir.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index 2fcee45..c796ab9 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1624,13 +1624,14 @@ namespace CubicleSoft
 			size_t y, y2;
 
 			// Copy the data.
-			while (SrcFile.Read(Buffer, 8192, y) && y)
+			do
 			{
-				DestFile.Write(Buffer, y, y2);
-			}
+				if (!SrcFile.Read(Buffer, 8192, y))  return false;
+				if (!DestFile.Write(Buffer, y, y2))  return false;
+			} while (y);
 
 			// Truncate the file to the current point.
-			if (::ftruncate(DestFile.MxFile, (off_t)DestFile.MxCurrPos) == 0)  {}
+			if (::ftruncate(DestFile.MxFile, (off_t)DestFile.MxCurrPos) != 0)  return false;
 
 			DestFile.Close();
 			SrcFile.Close();
-- 
2.43.0


From 6ec9c41554f8e018fcb16575daf45c8e50cf0d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:07 +0000
Subject: [PATCH 57/71] fix: File::Read() reported the end of the file when its
 size could not be determined

---
 utf8/utf8_file_dir.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index c796ab9..d436ff0 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1321,7 +1321,7 @@ namespace CubicleSoft
 
 			if ((std::uint64_t)DataSize > MxMaxPos - MxCurrPos)
 			{
-				UpdateMaxPos();
+				if (!UpdateMaxPos())  return false;
 				if ((std::uint64_t)DataSize > MxMaxPos - MxCurrPos)  DataSize = (size_t)(MxMaxPos - MxCurrPos);
 			}
 
-- 
2.43.0


From eff74a4439d381f6f76ec5b73ec10514028c6ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:32 +0000
Subject: [PATCH 58/71] fix: File::LineInput() read beyond its buffer when
 enlarging it

---
 utf8/utf8_file_dir.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index d436ff0..93bc627 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1902,7 +1902,7 @@ namespace CubicleSoft
 					else
 					{
 						Result2 = new char[CurrSize + 1];
-						memcpy(Result2, Result, CurrSize);
+						memcpy(Result2, Result, CurrSize - SizeHint);
 						delete[] Result;
 						Result = Result2;
 					}
-- 
2.43.0


From 217f054c60de2f864d7d987eb8e2904aa78b18c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:34 +0000
Subject: [PATCH 59/71] fix: File::LineInput() with a size hint of 0 never
 returned

---
 utf8/utf8_file_dir.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index 93bc627..4434edb 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1888,6 +1888,8 @@ namespace CubicleSoft
 
 			if (!IsOpen() || !MxRead)  return NULL;
 
+			if (!SizeHint)  SizeHint = 1024;
+
 			Result = NULL;
 			CurrSize = SizeHint;
 			do
-- 
2.43.0


From cfc9133fca1a2ee2cc3384ac5f4d553b1d205786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:35 +0000
Subject: [PATCH 60/71] fix: File::LineInput() split a line at a short read

---
 utf8/utf8_file_dir.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index 4434edb..effd1f1 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1910,10 +1910,18 @@ namespace CubicleSoft
 					}
 				}
 
-				Read((std::uint8_t *)(Result + CurrSize - SizeHint), SizeHint, ReadSize);
-				if (ReadSize < SizeHint)
+				// A short read is not necessarily the end of the file.
+				x = 0;
+				do
+				{
+					if (!Read((std::uint8_t *)(Result + CurrSize - SizeHint + x), SizeHint - x, ReadSize))  ReadSize = 0;
+
+					x += ReadSize;
+				} while (ReadSize && x < SizeHint);
+
+				if (x < SizeHint)
 				{
-					CurrSize -= (SizeHint - ReadSize);
+					CurrSize -= (SizeHint - x);
 
 					break;
 				}
-- 
2.43.0


From ff3fd0aff9da08e810f306ffc67b49d8eab648e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:36 +0000
Subject: [PATCH 61/71] fix: File::Open() reported success with a wrong size
 when the size could not be determined

---
 utf8/utf8_file_dir.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index effd1f1..eb8ffc7 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1288,7 +1288,12 @@ namespace CubicleSoft
 
 			off64_t Pos = ::lseek64(MxFile, 0, SEEK_CUR);
 			MxCurrPos = (Pos >= 0 ? (std::uint64_t)Pos : 0);
-			UpdateMaxPos();
+			if (!UpdateMaxPos())
+			{
+				Close();
+
+				return false;
+			}
 
 			return true;
 		}
-- 
2.43.0


From ee15216ea4838c98100376ee02abf3f46323211c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:20 +0000
Subject: [PATCH 62/71] fix: non-ASCII filenames were refused

---
 utf8/utf8_file_dir.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index eb8ffc7..4497fa5 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1410,7 +1410,7 @@ namespace CubicleSoft
 		bool File::GetPlatformFilename(char *Result, size_t ResultSize, const char *Filename, bool)
 		{
 			// Check for invalid characters in the path/filename.  Replace '\' with '/'.
-			char TempCP;
+			unsigned char TempCP;
 			size_t x, y = strlen(Filename);
 			if (y + 1 > ResultSize)  return false;
 			Util::ConvertToUTF8(Filename, y + 1, sizeof(char), (std::uint8_t *)Result, ResultSize);
@@ -1419,7 +1419,7 @@ namespace CubicleSoft
 			// Ignore combining code points since kernels are generally not fully UTF-8 aware.
 			for (x = 0; x < y; x++)
 			{
-				TempCP = Result[x];
+				TempCP = (unsigned char)Result[x];
 
 				if (TempCP < 0x20 || TempCP == 0x7F || TempCP == '*' || TempCP == '?' || TempCP == '\"' || TempCP == '<' || TempCP == '>' || TempCP == '|')  return false;
 				else if (TempCP == '\\')  Result[x] = '/';
-- 
2.43.0


From d02c66410f34b5df07203687d4500591172b8f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:21 +0000
Subject: [PATCH 63/71] fix: GetAbsoluteFilename() returned truncated,
 unresolved, or empty paths

---
 utf8/utf8_file_dir.cpp | 110 +++++++++++------------------------------
 1 file changed, 29 insertions(+), 81 deletions(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index 4497fa5..dd1672e 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1455,106 +1455,54 @@ namespace CubicleSoft
 
 			if (!GetPlatformFilename(Filename3, 8192, Filename))  return false;
 
-			// Replace '/./' with '/'.
-			size_t x, x2, y = strlen(Filename3);
-			x2 = 0;
-			for (x = 0; x < y; x++)
+			if (BaseDir != NULL)
 			{
-				while (Filename3[x] == '/' && Filename3[x + 1] == '.' && Filename3[x + 2] == '/')  x += 2;
-
-				Filename3[x2++] = Filename3[x];
-
-				if (Filename3[x] == '/' && Filename3[x + 1] == '.' && Filename3[x + 2] == '\0')  break;
+				if (!GetPlatformFilename(Filename2, 8192, BaseDir))  return false;
 			}
-			if (x2 >= 3 && Filename3[x2 - 3] == '/' && Filename3[x2 - 2] == '.' && Filename3[x2 - 1] == '.')
+			else
 			{
-				if (x2 >= 8191)  return false;
-				Filename3[x2++] = '/';
+				if (!Dir::Getcwd(Filename2, 8192))  return false;
 			}
-			Filename3[x2] = '\0';
 
-			// Get some parsed information about the input data.
-			FilenameInfo FileInfo2, FileInfo3;
-			GetPlatformFilenameInfo(FileInfo3, Filename3);
+			// Require the base directory to be absolute.
+			if (Filename2[0] != '/')  return false;
 
-			// Copy the absolute volume.
-			if (FileInfo3.StartVolume)
-			{
-				memcpy(Filename2, Filename3, FileInfo3.StartPath);
-				Filename2[FileInfo3.StartPath] = '\0';
-			}
-			else
-			{
-				if (BaseDir != NULL)
-				{
-					if (!GetPlatformFilename(Filename2, 8192, BaseDir))  return false;
-				}
-				else
-				{
-					if (!Dir::Getcwd(Filename2, 8192))  return false;
-				}
+			// Append the filename to the base directory.
+			size_t x, x2, y = strlen(Filename2);
+			if (Filename3[0] == '/')  y = 0;
+			else  Filename2[y++] = '/';
 
-				// Require the base directory to be absolute.
-				if (Filename2[0] != '/')  return false;
-			}
+			if (y + strlen(Filename3) >= 8191)  return false;
+			strcpy(Filename2 + y, Filename3);
 
-			y = strlen(Filename2);
-			if (y && Filename2[y - 1] != '/')
+			// Resolve empty, '.', and '..' path items.
+			x2 = 0;
+			for (x = 0; Filename2[x] != '\0'; x = y)
 			{
-				if (y >= 8191)  return false;
-				Filename2[y++] = '/';
-				Filename2[y] = '\0';
-			}
+				for (; Filename2[x] == '/'; x++);
+				for (y = x; Filename2[y] != '\0' && Filename2[y] != '/'; y++);
 
-			GetPlatformFilenameInfo(FileInfo2, Filename2);
-			if (Filename3[FileInfo3.StartPath] == '/')  FileInfo2.Length = FileInfo2.StartPath;
+				if (y == x || (y == x + 1 && Filename2[x] == '.'))  continue;
 
-			// Make sure the string always starts with a path separator.
-			if (FileInfo2.Length >= 8191)  return false;
-			if (FileInfo2.StartPath == FileInfo2.Length)  Filename2[FileInfo2.Length++] = '/';
-
-			// Parse the filename into the base directory.
-			for (x = FileInfo3.StartPath; x < FileInfo3.Length; x++)
-			{
-				while (Filename3[x] == '/' && Filename3[x + 1] == '.' && Filename3[x + 2] == '.' && Filename3[x + 3] == '/')
+				if (y == x + 2 && Filename2[x] == '.' && Filename2[x + 1] == '.')
 				{
-					if (FileInfo2.Length > FileInfo2.StartPath)
-					{
-						for (; FileInfo2.Length > FileInfo2.StartPath && Filename2[FileInfo2.Length - 1] == '/'; FileInfo2.Length--);
-						for (; FileInfo2.Length > FileInfo2.StartPath && Filename2[FileInfo2.Length - 1] != '/'; FileInfo2.Length--);
-					}
-
-					x += 3;
+					while (x2 && Filename2[--x2] != '/');
+				}
+				else
+				{
+					Filename2[x2++] = '/';
+					memmove(Filename2 + x2, Filename2 + x, y - x);
+					x2 += y - x;
 				}
-
-				if (FileInfo2.Length >= 8191)  return false;
-				Filename2[FileInfo2.Length++] = Filename3[x];
 			}
 
-			// Copy the rest.
-			x = 0;
-			x2 = x;
-			for (; x2 < ResultSize && x < FileInfo2.Length; x++)
-			{
-				while (Filename2[x] == '/' && Filename2[x + 1] == '/')  x++;
+			if (TrailingSlash || !x2)  Filename2[x2++] = '/';
 
-				Result[x2++] = Filename2[x];
-			}
-			if (TrailingSlash && x2 && Result[x2 - 1] != '/' && x2 < ResultSize)  Result[x2++] = '/';
-			if (!TrailingSlash && x2 && Result[x2 - 1] == '/')  x2--;
+			// Copy the result.
 			if (x2 >= ResultSize)  return false;
+			memcpy(Result, Filename2, x2);
 			Result[x2] = '\0';
 
-			// Sanity check.
-			for (x = 0; x < x2; x++)
-			{
-				if (Result[x] == '/' && Result[x + 1] == '.')
-				{
-					if (Result[x + 2] == '/')  return false;
-					if (Result[x + 2] == '.' && Result[x + 3] == '/')  return false;
-				}
-			}
-
 			return true;
 		}
 
-- 
2.43.0


From a0f5f5ff8c3720e64e30de4dd3ab131e3e33ce76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:54 +0000
Subject: [PATCH 64/71] fix: CallVoid() never loaded the function and always
 failed

---
 templates/shared_lib_util.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/templates/shared_lib_util.h b/templates/shared_lib_util.h
index 2a19779..3df905a 100644
--- a/templates/shared_lib_util.h
+++ b/templates/shared_lib_util.h
@@ -22,7 +22,7 @@ bool CUBICLESOFT_SHARED_LIBRARY_PREFIX_VOID(FunctionUtil &Func, Args... FuncArgs
 {
 	FARPROC FuncAddressPtr;
 
-	if ((FuncAddressPtr = Func.GetFuncPtr()) == NULL || (FuncAddressPtr = Func.LoadFuncPtr()) == NULL)  return false;
+	if ((FuncAddressPtr = Func.GetFuncPtr()) == NULL && (FuncAddressPtr = Func.LoadFuncPtr()) == NULL)  return false;
 
 	(*((void (CUBICLESOFT_SHARED_LIBRARY_CALLCONV *)(Args...))FuncAddressPtr))(FuncArgs...);
 
@@ -84,7 +84,7 @@ bool CUBICLESOFT_SHARED_LIBRARY_PREFIX_VOID(FunctionUtil &Func, Args... FuncArgs
 {
 	void *FuncAddressPtr;
 
-	if ((FuncAddressPtr = Func.GetFuncPtr()) == NULL || (FuncAddressPtr = Func.LoadFuncPtr()) == NULL)  return false;
+	if ((FuncAddressPtr = Func.GetFuncPtr()) == NULL && (FuncAddressPtr = Func.LoadFuncPtr()) == NULL)  return false;
 
 	(*((void (CUBICLESOFT_SHARED_LIBRARY_CALLCONV *)(Args...))FuncAddressPtr))(FuncArgs...);
 
-- 
2.43.0


From 077647ddcf783b71c8489105700d661717717cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:19 +0000
Subject: [PATCH 65/71] fix: GetCurrentUserAppStorageDir() crashed without a
 user entry and read before the buffer with an empty HOME

---
 utf8/utf8_appinfo.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/utf8/utf8_appinfo.cpp b/utf8/utf8_appinfo.cpp
index 878a5f8..69aa03d 100644
--- a/utf8/utf8_appinfo.cpp
+++ b/utf8/utf8_appinfo.cpp
@@ -181,8 +181,12 @@ namespace CubicleSoft
 			if (z2)  Buffer[0] = '\0';
 
 			const char *HomeDir = getenv("HOME");
-			if (HomeDir == NULL)  HomeDir = getpwuid(getuid())->pw_dir;
-			if (HomeDir == NULL)  return false;
+			if (HomeDir == NULL || *HomeDir == '\0')
+			{
+				struct passwd *TempUser = getpwuid(getuid());
+				HomeDir = (TempUser == NULL ? NULL : TempUser->pw_dir);
+			}
+			if (HomeDir == NULL || *HomeDir == '\0')  return false;
 
 			if (z2 < strlen(HomeDir))  return false;
 
-- 
2.43.0


From c441e93910af5c3a2f386d92a4ee17e80910b011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:21 +0000
Subject: [PATCH 66/71] fix: GetCurrentUserAppStorageDir() wrote past a buffer
 of exactly the home directory length

---
 utf8/utf8_appinfo.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utf8/utf8_appinfo.cpp b/utf8/utf8_appinfo.cpp
index 69aa03d..2393255 100644
--- a/utf8/utf8_appinfo.cpp
+++ b/utf8/utf8_appinfo.cpp
@@ -188,7 +188,7 @@ namespace CubicleSoft
 			}
 			if (HomeDir == NULL || *HomeDir == '\0')  return false;
 
-			if (z2 < strlen(HomeDir))  return false;
+			if (z2 <= strlen(HomeDir))  return false;
 
 			strcpy(Buffer, HomeDir);
 			size_t z = strlen(HomeDir);
-- 
2.43.0


From 0ced06ed6215ef50a69f6a0aca2c8434518e9f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:22 +0000
Subject: [PATCH 67/71] fix: GetTempStorageDir() wrote past a 5 byte buffer

---
 utf8/utf8_appinfo.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utf8/utf8_appinfo.cpp b/utf8/utf8_appinfo.cpp
index 2393255..c0cc783 100644
--- a/utf8/utf8_appinfo.cpp
+++ b/utf8/utf8_appinfo.cpp
@@ -202,7 +202,7 @@ namespace CubicleSoft
 			BufferSize = 0;
 			if (z2)  Buffer[0] = '\0';
 
-			if (z2 < 5)  return false;
+			if (z2 < 6)  return false;
 
 			strcpy(Buffer, "/tmp/");
 			size_t z = 5;
-- 
2.43.0


From da2aded1cd5b9ea47dcb656a187e9637830bd741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:38 +0000
Subject: [PATCH 68/71] fix: GetExecutableFilename() resolved a truncated link

---
 utf8/utf8_appinfo.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/utf8/utf8_appinfo.cpp b/utf8/utf8_appinfo.cpp
index c0cc783..0356226 100644
--- a/utf8/utf8_appinfo.cpp
+++ b/utf8/utf8_appinfo.cpp
@@ -131,7 +131,15 @@ namespace CubicleSoft
 			char *Filename;
 			if (z > 0)
 			{
-				if ((size_t)z < z2)  Buffer[z] = '\0';
+				// A link that fills the buffer is most likely truncated.
+				if ((size_t)z >= z2)
+				{
+					Buffer[0] = '\0';
+
+					return false;
+				}
+
+				Buffer[z] = '\0';
 
 				Filename = realpath(Buffer, NULL);
 			}
-- 
2.43.0


From c033fe525378d56a5e126f328790979d15a0aeee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:09 +0000
Subject: [PATCH 69/71] fix: GetExecutablePath() kept part of a file name that
 contains a backslash

---
 utf8/utf8_appinfo.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utf8/utf8_appinfo.cpp b/utf8/utf8_appinfo.cpp
index 0356226..d967b8a 100644
--- a/utf8/utf8_appinfo.cpp
+++ b/utf8/utf8_appinfo.cpp
@@ -246,7 +246,11 @@ namespace CubicleSoft
 		{
 			if (!GetExecutableFilename(Buffer, BufferSize, Argv0))  return false;
 
+#if defined(_WIN32) || defined(WIN32) || defined(_WIN64) || defined(WIN64)
 			while (BufferSize && Buffer[BufferSize - 1] != '/' && Buffer[BufferSize - 1] != '\\')  BufferSize--;
+#else
+			while (BufferSize && Buffer[BufferSize - 1] != '/')  BufferSize--;
+#endif
 			Buffer[BufferSize++] = '\0';
 
 			return true;
-- 
2.43.0


From 70152a03222eaf686334c47421f5115efd0280d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:43 +0000
Subject: [PATCH 70/71] fix: File::Readlink() returned an unterminated string

---
 utf8/utf8_file_dir.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index dd1672e..3e5b952 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1643,8 +1643,11 @@ namespace CubicleSoft
 		bool File::Readlink(char *Result, size_t ResultSize, const char *Filename)
 		{
 			ssize_t Size = ::readlink(Filename, Result, ResultSize);
+			if (Size == -1 || (size_t)Size >= ResultSize)  return false;
 
-			return (Size != -1 && (size_t)Size < ResultSize);
+			Result[Size] = '\0';
+
+			return true;
 		}
 
 		// Only Windows supports Creation timestamp modification.
-- 
2.43.0


From 5f4aae1196690530f2411e0457940fc87ba8f603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:06 +0000
Subject: [PATCH 71/71] fix: File::Chgrp() looked the group up as a user

---
 utf8/utf8_file_dir.cpp | 6 +++---
 utf8/utf8_file_dir.h   | 1 +
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index 3e5b952..7ca9f49 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1551,10 +1551,10 @@ namespace CubicleSoft
 			char Filename2[8192];
 			if (!GetPlatformFilename(Filename2, 8192, Filename))  return false;
 
-			struct passwd *UserInfo = getpwnam(Group);
-			if (UserInfo == NULL)  return false;
+			struct group *GroupInfo = getgrnam(Group);
+			if (GroupInfo == NULL)  return false;
 
-			return (::chown(Filename2, -1, UserInfo->pw_gid) == 0);
+			return (::chown(Filename2, -1, GroupInfo->gr_gid) == 0);
 		}
 
 		bool File::Copy(const char *SrcFilename, const char *DestFilename)
diff --git a/utf8/utf8_file_dir.h b/utf8/utf8_file_dir.h
index 09640c3..19c8e29 100644
--- a/utf8/utf8_file_dir.h
+++ b/utf8/utf8_file_dir.h
@@ -25,6 +25,7 @@
 	#include <fcntl.h>
 	#include <unistd.h>
 	#include <pwd.h>
+	#include <grp.h>
 	#include <errno.h>
 	#include <utime.h>
 	#include <dirent.h>
-- 
2.43.0

