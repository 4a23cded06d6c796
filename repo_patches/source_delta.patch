From fb52d93bec640f9163f1beac269f41aa5ffef4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:34 +0000
Subject: [PATCH 001/105] fix: FITS data reads split inside a value no longer
 overrun the buffer or lose data returned with EOF

---
 internal/fits/read.go | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/internal/fits/read.go b/internal/fits/read.go
index 043aea4..c8c1c74 100644
--- a/internal/fits/read.go
+++ b/internal/fits/read.go
@@ -185,7 +185,7 @@ func (fits *Image) readInt8Data(r io.Reader) error {
 			bytesToRead = bufLen
 		}
 		bytesRead, err := r.Read(buf[:bytesToRead])
-		if err != nil {
+		if err != nil && bytesRead == 0 { // a reader may return data together with an error, e.g. io.EOF
 			return fmt.Errorf("%d: %s", fits.ID, err.Error())
 		}
 
@@ -221,11 +221,11 @@ func (fits *Image) readInt16Data(r io.Reader) error {
 	leftoverBytes := 0
 	for dataIndex < len(fits.Data) {
 		bytesToRead := (len(fits.Data)-dataIndex)*bytesPerValue - leftoverBytes
-		if bytesToRead > bufLen {
-			bytesToRead = bufLen
+		if bytesToRead > bufLen-leftoverBytes {
+			bytesToRead = bufLen - leftoverBytes
 		}
 		bytesRead, err := r.Read(buf[leftoverBytes : leftoverBytes+bytesToRead])
-		if err != nil {
+		if err != nil && bytesRead == 0 { // a reader may return data together with an error, e.g. io.EOF
 			return fmt.Errorf("%d: %s", fits.ID, err.Error())
 		}
 
@@ -267,11 +267,11 @@ func (fits *Image) readInt32Data(r io.Reader) error {
 	leftoverBytes := 0
 	for dataIndex < len(fits.Data) {
 		bytesToRead := (len(fits.Data)-dataIndex)*bytesPerValue - leftoverBytes
-		if bytesToRead > bufLen {
-			bytesToRead = bufLen
+		if bytesToRead > bufLen-leftoverBytes {
+			bytesToRead = bufLen - leftoverBytes
 		}
 		bytesRead, err := r.Read(buf[leftoverBytes : leftoverBytes+bytesToRead])
-		if err != nil {
+		if err != nil && bytesRead == 0 { // a reader may return data together with an error, e.g. io.EOF
 			return fmt.Errorf("%d: %s", fits.ID, err.Error())
 		}
 
@@ -313,11 +313,11 @@ func (fits *Image) readInt64Data(r io.Reader) error {
 	leftoverBytes := 0
 	for dataIndex < len(fits.Data) {
 		bytesToRead := (len(fits.Data)-dataIndex)*bytesPerValue - leftoverBytes
-		if bytesToRead > bufLen {
-			bytesToRead = bufLen
+		if bytesToRead > bufLen-leftoverBytes {
+			bytesToRead = bufLen - leftoverBytes
 		}
 		bytesRead, err := r.Read(buf[leftoverBytes : leftoverBytes+bytesToRead])
-		if err != nil {
+		if err != nil && bytesRead == 0 { // a reader may return data together with an error, e.g. io.EOF
 			return fmt.Errorf("%d: %s", fits.ID, err.Error())
 		}
 
@@ -360,11 +360,11 @@ func (fits *Image) readFloat32Data(r io.Reader) error {
 	leftoverBytes := 0
 	for dataIndex < len(fits.Data) {
 		bytesToRead := (len(fits.Data)-dataIndex)*bytesPerValue - leftoverBytes
-		if bytesToRead > bufLen {
-			bytesToRead = bufLen
+		if bytesToRead > bufLen-leftoverBytes {
+			bytesToRead = bufLen - leftoverBytes
 		}
 		bytesRead, err := r.Read(buf[leftoverBytes : leftoverBytes+bytesToRead])
-		if err != nil {
+		if err != nil && bytesRead == 0 { // a reader may return data together with an error, e.g. io.EOF
 			return fmt.Errorf("%d: %s", fits.ID, err.Error())
 		}
 
@@ -407,11 +407,11 @@ func (fits *Image) readFloat64Data(r io.Reader) error {
 	leftoverBytes := 0
 	for dataIndex < len(fits.Data) {
 		bytesToRead := (len(fits.Data)-dataIndex)*bytesPerValue - leftoverBytes
-		if bytesToRead > bufLen {
-			bytesToRead = bufLen
+		if bytesToRead > bufLen-leftoverBytes {
+			bytesToRead = bufLen - leftoverBytes
 		}
 		bytesRead, err := r.Read(buf[leftoverBytes : leftoverBytes+bytesToRead])
-		if err != nil {
+		if err != nil && bytesRead == 0 { // a reader may return data together with an error, e.g. io.EOF
 			return fmt.Errorf("%d: %s", fits.ID, err.Error())
 		}
 
-- 
2.43.0


From da10776568e50347732feac98021b433500d7847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:34 +0000
Subject: [PATCH 002/105] fix: reject FITS headers with missing, negative or
 overflowing axis lengths instead of crashing

---
 internal/fits/read.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/fits/read.go b/internal/fits/read.go
index c8c1c74..116cf5e 100644
--- a/internal/fits/read.go
+++ b/internal/fits/read.go
@@ -110,6 +110,9 @@ func (fits *Image) Read(f io.Reader, readData bool, logWriter io.Writer) (err er
 	if naxis, err = fits.PopHeaderInt32("NAXIS"); err != nil {
 		return err
 	}
+	if naxis < 1 || naxis > 999 { // limits as per standard. Images without data cannot be processed
+		return fmt.Errorf("%d: Unsupported number of axes NAXIS=%d", fits.ID, naxis)
+	}
 	fits.Naxisn = make([]int32, naxis)
 	fits.Pixels = int32(1)
 	for i := int32(1); i <= naxis; i++ {
@@ -118,6 +121,9 @@ func (fits *Image) Read(f io.Reader, readData bool, logWriter io.Writer) (err er
 		if nai, err = fits.PopHeaderInt32(name); err != nil {
 			return err
 		}
+		if nai < 1 || int64(fits.Pixels)*int64(nai) > math.MaxInt32 {
+			return fmt.Errorf("%d: Unsupported axis length %s=%d", fits.ID, name, nai)
+		}
 		fits.Naxisn[i-1] = nai
 		fits.Pixels *= int32(nai)
 	}
-- 
2.43.0


From 3c583e7868101c17d64941bee00ef73d3bac3fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:35 +0000
Subject: [PATCH 003/105] fix: parse all FITS header numbers (exponents, large
 integers), doubled quotes and comments

---
 internal/fits/read.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/internal/fits/read.go b/internal/fits/read.go
index 116cf5e..dc6d799 100644
--- a/internal/fits/read.go
+++ b/internal/fits/read.go
@@ -485,7 +485,7 @@ func (h *Header) readLine(subNames []string, subValues [][]byte, id, lineNo int,
 			case byte('H'): // history line
 				h.History = append(h.History, string(subValues[i]))
 			case byte('C'): // comment line
-				h.Comments = append(h.History, string(subValues[i]))
+				h.Comments = append(h.Comments, string(subValues[i]))
 			case byte('k'): // key
 				key = string(subValues[i])
 			case byte('b'): // boolean
@@ -494,17 +494,19 @@ func (h *Header) readLine(subNames []string, subValues [][]byte, id, lineNo int,
 					h.Bools[key] = v == byte('t') || v == byte('T')
 				}
 			case byte('i'): // int
-				val, err := strconv.ParseInt(string(subValues[i]), 10, 64)
+				val, err := strconv.ParseInt(string(subValues[i]), 10, 32)
 				if err == nil {
 					h.Ints[key] = int32(val)
+				} else if val, err := strconv.ParseFloat(string(subValues[i]), 64); err == nil {
+					h.Floats[key] = float32(val) // beyond int32 range, e.g. BZERO for unsigned integer data
 				}
 			case byte('f'): // float
-				val, err := strconv.ParseFloat(string(subValues[i]), 64)
+				val, err := strconv.ParseFloat(strings.NewReplacer("D", "E", "d", "e").Replace(string(subValues[i])), 64)
 				if err == nil {
 					h.Floats[key] = float32(val)
 				}
 			case byte('s'): // string
-				h.Strings[key] = string(subValues[i])
+				h.Strings[key] = strings.ReplaceAll(string(subValues[i]), "''", "'")
 			case byte('d'): // date
 				h.Dates[key] = string(subValues[i])
 			case byte('c'): // comment
@@ -548,8 +550,8 @@ func compileRE() *regexp.Regexp {
 
 	boo := "(?P<b>[TF])"
 	inte := "(?P<i>[+-]?[0-9]+)"
-	floa := "(?P<f>[+-]?[0-9]*\\.[0-9]*(?:[ED][-+]?[0-9]+)?)"
-	stri := "'(?P<s>[^']*)'"
+	floa := "(?P<f>[+-]?(?:[0-9]+\\.?[0-9]*|\\.[0-9]+)(?:[EeDd][-+]?[0-9]+)?)"
+	stri := "'(?P<s>(?:[^']|'')*)'"
 	date := "(?P<d>[0-9]{1,4}-?[012][0-9]-?[0123][0-9]T[012][0-9]:?[0-5][0-9]:?[0-5][0-9].?[0-9]*)" // FIXME: other variants possible, see ISO8601
 	val := "(?:" + boo + "|" + inte + "|" + floa + "|" + stri + "|" + date + ")"
 
-- 
2.43.0


From 9756f427ccf0a460fe6ff2b1238a37f81aed457c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:01 +0000
Subject: [PATCH 004/105] fix: FITS writer truncates an existing file and
 reports errors on closing it

---
 internal/fits/write.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/fits/write.go b/internal/fits/write.go
index 9d73889..afc7292 100644
--- a/internal/fits/write.go
+++ b/internal/fits/write.go
@@ -29,11 +29,11 @@ import (
 // Writes an in-memory FITS image to a file with given filename.
 // Creates/overwrites the file if necessary.
 // Compresses with gzip if .gz or gzip suffix is present.
-func (fits *Image) WriteFile(fileName string) error {
+func (fits *Image) WriteFile(fileName string) (err error) {
 	//fmt.Println("Reading from " + fileName + "..." )
-	f, err:=os.OpenFile(fileName, os.O_WRONLY |os.O_CREATE, 0644)
+	f, err:=os.OpenFile(fileName, os.O_WRONLY |os.O_CREATE |os.O_TRUNC, 0644)
 	if err!=nil { return err }
-	defer f.Close()
+	defer func() { if cerr:=f.Close(); err==nil { err=cerr } }()
 
 	var w io.Writer=f
 
@@ -42,7 +42,7 @@ func (fits *Image) WriteFile(fileName string) error {
 	lExt:=strings.ToLower(ext)
 	if lExt==".gz" || lExt==".gzip" {
 		gw:=gzip.NewWriter(f)
-		defer gw.Close()
+		defer func() { if cerr:=gw.Close(); err==nil { err=cerr } }()
 		w=gw
 	} 
 
-- 
2.43.0


From a5410cfaf25cc15b62ad925599552aef908f963b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:02 +0000
Subject: [PATCH 005/105] fix: write FITS header floats with upper case
 exponent and header strings once

---
 internal/fits/write.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/internal/fits/write.go b/internal/fits/write.go
index afc7292..285ef2b 100644
--- a/internal/fits/write.go
+++ b/internal/fits/write.go
@@ -94,7 +94,6 @@ func (h *Header) Write(w io.Writer) {
 	for k,v:=range(h.Ints   ) { writeInt32  (w, k, v, "") }
 	for k,v:=range(h.Floats ) { writeFloat32(w, k, v, "") }
 	for k,v:=range(h.Strings) { writeString (w, k, v, "") }
-	for k,v:=range(h.Strings) { writeString (w, k, v, "") }
 	for k,v:=range(h.Dates  ) { writeString (w, k, v, "") }
 	// FIXME: ignoring h.Comments and h.History for now
 }
@@ -137,7 +136,7 @@ func writeInt64(w io.Writer, key string, value int64, comment string) {
 func writeFloat32(w io.Writer, key string, value float32, comment string) {
 	if len(key)>8 { key=key[0:8] }
 	if len(comment)>47 { comment=comment[0:47] }
-	fmt.Fprintf(w, "%-8s= %20g / %-47s", key, value, comment)
+	fmt.Fprintf(w, "%-8s= %20G / %-47s", key, value, comment)
 }
 
 
@@ -145,7 +144,7 @@ func writeFloat32(w io.Writer, key string, value float32, comment string) {
 func writeFloat64(w io.Writer, key string, value float64, comment string) {
 	if len(key)>8 { key=key[0:8] }
 	if len(comment)>47 { comment=comment[0:47] }
-	fmt.Fprintf(w, "%-8s= %20g / %-47s", key, value, comment)
+	fmt.Fprintf(w, "%-8s= %20G / %-47s", key, value, comment)
 }
 
 
-- 
2.43.0


From bc5c1c7421ffb84da2fd73844d11234a173030ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:03 +0000
Subject: [PATCH 006/105] fix: report errors when saving TIFF and JPEG files

---
 internal/fits/tiff16.go   | 20 ++++++++++++++------
 internal/fits/writejpg.go | 20 ++++++++++++++------
 internal/ops/operator.go  |  8 ++++----
 3 files changed, 32 insertions(+), 16 deletions(-)

diff --git a/internal/fits/tiff16.go b/internal/fits/tiff16.go
index 1c29b2c..43c2fe9 100644
--- a/internal/fits/tiff16.go
+++ b/internal/fits/tiff16.go
@@ -36,9 +36,13 @@ func (f *Image) WriteTIFF16ToFile(fileName string, min, max, gamma float32) erro
 	defer file.Close()
 
 	writer := bufio.NewWriter(file)
-	defer writer.Flush()
-
-	return f.WriteTIFF16(writer, min, max, gamma)
+	if err := f.WriteTIFF16(writer, min, max, gamma); err != nil {
+		return err
+	}
+	if err := writer.Flush(); err != nil {
+		return err
+	}
+	return file.Close()
 }
 
 // Write a FITS image to 16-bit TIFF, using the given min, max and gamma.
@@ -99,9 +103,13 @@ func (f *Image) WriteMonoTIFF16ToFile(fileName string, min, max, gamma float32)
 	defer file.Close()
 
 	writer := bufio.NewWriter(file)
-	defer writer.Flush()
-
-	return f.WriteMonoTIFF16(writer, min, max, gamma)
+	if err := f.WriteMonoTIFF16(writer, min, max, gamma); err != nil {
+		return err
+	}
+	if err := writer.Flush(); err != nil {
+		return err
+	}
+	return file.Close()
 }
 
 // Write a grayscale FITS image to 16-bit TIFF, using the given min, max and gamma.
diff --git a/internal/fits/writejpg.go b/internal/fits/writejpg.go
index 8581bb9..d522fa7 100644
--- a/internal/fits/writejpg.go
+++ b/internal/fits/writejpg.go
@@ -34,9 +34,13 @@ func (f *Image) WriteJPGToFile(fileName string, min, max, gamma float32, quality
 	defer file.Close()
 
 	writer := bufio.NewWriter(file)
-	defer writer.Flush()
-
-	return f.WriteJPG(writer, min, max, gamma, quality)
+	if err := f.WriteJPG(writer, min, max, gamma, quality); err != nil {
+		return err
+	}
+	if err := writer.Flush(); err != nil {
+		return err
+	}
+	return file.Close()
 }
 
 // Write a FITS image to JPG, using the given min, max and gamma.
@@ -97,9 +101,13 @@ func (f *Image) WriteMonoJPGToFile(fileName string, min, max, gamma float32, qua
 	defer file.Close()
 
 	writer := bufio.NewWriter(file)
-	defer writer.Flush()
-
-	return f.WriteMonoJPG(writer, min, max, gamma, quality)
+	if err := f.WriteMonoJPG(writer, min, max, gamma, quality); err != nil {
+		return err
+	}
+	if err := writer.Flush(); err != nil {
+		return err
+	}
+	return file.Close()
 }
 
 // Write a grayscale FITS image to JPG, using the given min, max and gamma.
diff --git a/internal/ops/operator.go b/internal/ops/operator.go
index ff41e01..1a7ffcc 100644
--- a/internal/ops/operator.go
+++ b/internal/ops/operator.go
@@ -432,11 +432,11 @@ func (op *OpSave) Apply(f *fits.Image, c *Context) (result *fits.Image, err erro
 		if len(f.Naxisn) == 2 {
 			fmt.Fprintf(c.Log, "%d: Writing %s pixel mono 16-bit TIFF to %s with min=%g max=%g...\n",
 				f.ID, f.DimensionsToString(), fileName, min, max)
-			f.WriteMonoTIFF16ToFile(fileName, min, max, op.Gamma)
+			err = f.WriteMonoTIFF16ToFile(fileName, min, max, op.Gamma)
 		} else if len(f.Naxisn) == 3 && f.Naxisn[2] == 3 {
 			fmt.Fprintf(c.Log, "%d: Writing %s pixel color 16-bit TIFF to %s with min=%g max=%g...\n",
 				f.ID, f.DimensionsToString(), fileName, min, max)
-			f.WriteTIFF16ToFile(fileName, min, max, op.Gamma)
+			err = f.WriteTIFF16ToFile(fileName, min, max, op.Gamma)
 		} else {
 			return nil, fmt.Errorf("%d: unable to write %s pixel image as 16-bit TIFF to %s", f.ID, f.DimensionsToString(), fileName)
 		}
@@ -444,11 +444,11 @@ func (op *OpSave) Apply(f *fits.Image, c *Context) (result *fits.Image, err erro
 		if len(f.Naxisn) == 2 {
 			fmt.Fprintf(c.Log, "%d: Writing %s pixel mono JPEG to %s with min=%g max=%g gamma=%g...\n",
 				f.ID, f.DimensionsToString(), fileName, min, max, op.Gamma)
-			f.WriteMonoJPGToFile(fileName, min, max, op.Gamma, 95)
+			err = f.WriteMonoJPGToFile(fileName, min, max, op.Gamma, 95)
 		} else if len(f.Naxisn) == 3 && f.Naxisn[2] == 3 {
 			fmt.Fprintf(c.Log, "%d: Writing %s pixel color JPEG to %s with min=%g max=%g gamma=%g...\n",
 				f.ID, f.DimensionsToString(), fileName, min, max, op.Gamma)
-			f.WriteJPGToFile(fileName, min, max, op.Gamma, 95)
+			err = f.WriteJPGToFile(fileName, min, max, op.Gamma, 95)
 		} else {
 			return nil, fmt.Errorf("%d: unable to write %s pixel image as JPEG to %s", f.ID, f.DimensionsToString(), fileName)
 		}
-- 
2.43.0


From 03cbabf6d7efd469559f8d7664972bd8d931936e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:03 +0000
Subject: [PATCH 007/105] fix: expand filename patterns with width like %04d
 when saving frames

---
 internal/ops/operator.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/ops/operator.go b/internal/ops/operator.go
index 1a7ffcc..b1c5d79 100644
--- a/internal/ops/operator.go
+++ b/internal/ops/operator.go
@@ -24,6 +24,7 @@ import (
 	"io"
 	"os"
 	"path/filepath"
+	"regexp"
 	"runtime"
 	"strings"
 
@@ -354,6 +355,9 @@ const (
 	EM0_65535
 )
 
+// Matches an integer formatting verb with optional flags and width in a filename pattern, e.g. %d or %04d
+var reIntVerb = regexp.MustCompile(`%[-+# 0]*[0-9]*d`)
+
 // Saves given promise under a given filename, with pattern expansion for %d based on the image id.
 // Takes one input, produces one output (the materialized but unchanged input)
 type OpSave struct {
@@ -399,7 +403,7 @@ func (op *OpSave) Apply(f *fits.Image, c *Context) (result *fits.Image, err erro
 		return nil, fmt.Errorf("cannot save nil file to %s", op.FilePattern)
 	}
 	fileName := op.FilePattern
-	if strings.Contains(fileName, "%d") {
+	if reIntVerb.MatchString(fileName) {
 		fileName = fmt.Sprintf(op.FilePattern, f.ID)
 	}
 	fnLower := strings.ToLower(fileName)
-- 
2.43.0


From 68f2189037e635826693864406bd2cb51dae1eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:23 +0000
Subject: [PATCH 008/105] fix: load 8-bit and color TIFF files

---
 internal/fits/tiff16.go | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/internal/fits/tiff16.go b/internal/fits/tiff16.go
index 43c2fe9..c1e7e6e 100644
--- a/internal/fits/tiff16.go
+++ b/internal/fits/tiff16.go
@@ -17,6 +17,7 @@ package fits
 
 import (
 	"bufio"
+	"fmt"
 	"image"
 	"image/color"
 	"io"
@@ -161,6 +162,9 @@ func (f *Image) ReadTIFF(fileName string) error {
 	// determine width, height, color depth and number of color channels
 	width, height := t.Bounds().Dx(), t.Bounds().Dy()
 	bitpix, channels := colorModelToBitpixAndChannels(t.ColorModel())
+	if channels == 0 {
+		return fmt.Errorf("%d: unsupported color model in TIFF file %s", f.ID, fileName)
+	}
 
 	// set FITS metadata
 	f.Bitpix = bitpix
@@ -177,7 +181,7 @@ func (f *Image) ReadTIFF(fileName string) error {
 	// allocate FITS image bitmap
 	f.Data = make([]float32, f.Pixels)
 	sizeThird := int(f.Pixels / 3)
-	sizeTwoThirds := int(f.Pixels * 2)
+	sizeTwoThirds := sizeThird * 2
 
 	// keep running stats
 	min, max, sum := float32(math.MaxFloat32), float32(-math.MaxFloat32), float64(0)
@@ -188,8 +192,7 @@ func (f *Image) ReadTIFF(fileName string) error {
 		for y := 0; y < height; y++ {
 			for x := 0; x < width; x++ {
 				// convert pixel
-				c := t.At(x, y).(color.Gray16)
-				gray := float32(c.Y)
+				gray, _, _ := colorToRGB(t.At(x, y))
 				f.Data[y*width+x] = gray
 
 				// update stats
@@ -207,8 +210,7 @@ func (f *Image) ReadTIFF(fileName string) error {
 		for y := 0; y < height; y++ {
 			for x := 0; x < width; x++ {
 				// convert pixel
-				c := t.At(x, y).(color.RGBA64)
-				r, g, b := float32(c.R), float32(c.G), float32(c.B)
+				r, g, b := colorToRGB(t.At(x, y))
 				f.Data[y*width+x] = r
 				f.Data[y*width+x+sizeThird] = g
 				f.Data[y*width+x+sizeTwoThirds] = b
@@ -235,6 +237,27 @@ func (f *Image) ReadTIFF(fileName string) error {
 	return nil
 }
 
+// Returns the red, green and blue sample values of a golang color, in the range given by its bit depth
+func colorToRGB(c color.Color) (r, g, b float32) {
+	switch v := c.(type) {
+	case color.Gray:
+		return float32(v.Y), float32(v.Y), float32(v.Y)
+	case color.Gray16:
+		return float32(v.Y), float32(v.Y), float32(v.Y)
+	case color.RGBA:
+		return float32(v.R), float32(v.G), float32(v.B)
+	case color.NRGBA:
+		return float32(v.R), float32(v.G), float32(v.B)
+	case color.RGBA64:
+		return float32(v.R), float32(v.G), float32(v.B)
+	case color.NRGBA64:
+		return float32(v.R), float32(v.G), float32(v.B)
+	default:
+		r, g, b, _ := c.RGBA()
+		return float32(r), float32(g), float32(b)
+	}
+}
+
 // Convert a golang image color model to FITS bitpix and number of channels.
 func colorModelToBitpixAndChannels(m color.Model) (bitpix, channels int32) {
 	switch m {
-- 
2.43.0


From f8735545f124e4541b949e37323616995d867c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:13 +0000
Subject: [PATCH 009/105] fix: do not break escaped quotes apart when a FITS
 header string continues on the next card

---
 internal/fits/write.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/internal/fits/write.go b/internal/fits/write.go
index 285ef2b..44bb3d7 100644
--- a/internal/fits/write.go
+++ b/internal/fits/write.go
@@ -155,22 +155,29 @@ func writeString(w io.Writer, key, value, comment string) {
 
 	// escape ' characters
 	value=strings.Join(strings.Split(value, "'"), "''")
-	// FIXME: Malformatted output ERROR if printing breaks the '' characters!
-
 	if len(value)<=18 {
 		fmt.Fprintf(w, "%-8s= '%s'%s / %-47s", key, value, strings.Repeat(" ", 18-len(value)), comment)
 	} else {
-		fmt.Fprintf(w, "%-8s= '%s&' / %-47s", key, value[0:17], comment)
-		value=value[17:]
+		n:=escapedPrefixLen(value, 17)
+		fmt.Fprintf(w, "%-8s= '%s&'%s / %-47s", key, value[0:n], strings.Repeat(" ", 17-n), comment)
+		value=value[n:]
 		for ; len(value)>66 ; {
-			fmt.Fprintf(w, "CONTINUE  '%s&' ", value[0:66])
-			value=value[66:]
+			n=escapedPrefixLen(value, 66)
+			fmt.Fprintf(w, "CONTINUE  '%s&'%s ", value[0:n], strings.Repeat(" ", 66-n))
+			value=value[n:]
 		}
 		fmt.Fprintf(w, "CONTINUE  '%s'%s", value, strings.Repeat(" ", 50+(18-len(value))))
 	}	
 }
 
 
+// Returns the length of the longest prefix up to n which does not break an escaped '' apart
+func escapedPrefixLen(value string, n int) int {
+	if strings.Count(value[:n], "'") % 2 != 0 { return n-1 }
+	return n
+}
+
+
 // Writes a FITS header end record 
 func writeEnd(w io.Writer) {
 	fmt.Fprintf(w, "END%s", strings.Repeat(" ", 80-3))
-- 
2.43.0


From 5c6681ef6a67d853baaea0b0f2d66ed6929c2255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:36 +0000
Subject: [PATCH 010/105] fix: unary operators pass on skipped images instead
 of dereferencing nil

---
 internal/ops/operator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/ops/operator.go b/internal/ops/operator.go
index b1c5d79..314e1bb 100644
--- a/internal/ops/operator.go
+++ b/internal/ops/operator.go
@@ -200,6 +200,9 @@ func (op *OpUnaryBase) MakePromise(in Promise, c *Context) (out Promise) {
 		if f, err = in(); err != nil {
 			return nil, err
 		} // materialize input promise
+		if f == nil {
+			return nil, nil
+		} // pass on skipped images
 		if f, err = op.Apply(f, c); err != nil {
 			return nil, err
 		} // apply unary operator
-- 
2.43.0


From 48f76b85904534888476ce415a90566ad7b00caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:36 +0000
Subject: [PATCH 011/105] fix: parallel evaluation does not block forever with
 a thread limit of zero

---
 internal/ops/operator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/ops/operator.go b/internal/ops/operator.go
index 314e1bb..7080e21 100644
--- a/internal/ops/operator.go
+++ b/internal/ops/operator.go
@@ -78,6 +78,9 @@ func MaterializeAll(ins []Promise, maxThreads int, forget bool) (outs []*fits.Im
 	if !forget {
 		outs = make([]*fits.Image, len(ins))
 	}
+	if maxThreads < 1 {
+		maxThreads = 1 // a limit of zero would block forever
+	}
 	limiter := make(chan bool, maxThreads)
 	errs := make(chan error, len(ins))
 	for i, in := range ins {
-- 
2.43.0


From acf794025b7b3b03783c054756de7ed0caeb84cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:50 +0000
Subject: [PATCH 012/105] fix: statistics export writes a complete file for any
 number of frames and reports write errors

---
 internal/ops/operator.go           |  7 ----
 internal/ops/ref/exportstats.go    | 61 +++++++++++++++---------------
 internal/ops/stack/stackbatches.go |  2 -
 3 files changed, 31 insertions(+), 39 deletions(-)

diff --git a/internal/ops/operator.go b/internal/ops/operator.go
index 7080e21..728f8ae 100644
--- a/internal/ops/operator.go
+++ b/internal/ops/operator.go
@@ -16,13 +16,11 @@
 package ops
 
 import (
-	"bufio"
 	"bytes"
 	"encoding/json"
 	"errors"
 	"fmt"
 	"io"
-	"os"
 	"path/filepath"
 	"regexp"
 	"runtime"
@@ -49,11 +47,6 @@ type Context struct {
 	MatchHisto      *stats.Stats
 	RefFrameError   error
 	LumFrame        *fits.Image
-
-	StatsTotal     int
-	StatsProcessed int
-	StatsFile      *os.File      `json:"-"` // the output file being written to. do not use directly
-	StatsBufWriter *bufio.Writer `json:"-"` // buffered writer for the output file. use this
 }
 
 func NewContext(log io.Writer, stMemory int, lsEstimatorMode stats.LSEstimatorMode) *Context {
diff --git a/internal/ops/ref/exportstats.go b/internal/ops/ref/exportstats.go
index 6516ef0..be15633 100644
--- a/internal/ops/ref/exportstats.go
+++ b/internal/ops/ref/exportstats.go
@@ -16,7 +16,6 @@
 package ref
 
 import (
-	"bufio"
 	"encoding/json"
 	"fmt"
 	"os"
@@ -28,10 +27,11 @@ import (
 
 type OpExportStats struct {
 	ops.OpUnaryBase
-	FileName     string        `json:"fileName"`
-	mutex        sync.Mutex    `json:"-"`
-	materialized []*fits.Image `json:"-"`
-	opError      error         `json:"-"`
+	FileName string       `json:"fileName"`
+	mutex    sync.Mutex   `json:"-"`
+	file     *os.File     `json:"-"` // the output file being written to
+	offset   int64        `json:"-"` // offset in the output file to write the next row to
+	context  *ops.Context `json:"-"` // the run which the output file belongs to
 }
 
 func init() { ops.SetOperatorFactory(func() ops.Operator { return NewOpExportStatsDefault() }) } // register the operator for JSON decoding
@@ -70,50 +70,51 @@ func (op *OpExportStats) Apply(f *fits.Image, c *ops.Context) (result *fits.Imag
 	defer op.mutex.Unlock() // always release lock on exit
 
 	// write stats
-	if c.StatsProcessed == 0 {
-		err = op.writeHeader(c)
-		if err != nil {
+	if op.context != c { // first frame of this run
+		if err = op.writeHeader(c); err != nil {
 			return nil, err
 		}
 	}
-	op.writeStats(f, c)
-	c.StatsProcessed++
-	if c.StatsProcessed == c.StatsTotal {
-		op.writeFooter(c)
+	if err = op.writeStats(f, c); err != nil {
+		return nil, err
 	}
-
 	return f, nil
 }
 
 func (op *OpExportStats) writeHeader(c *ops.Context) (err error) {
 	fmt.Fprintf(c.Log, "Writing statistics header to file %s ...\n", op.FileName)
-	c.StatsFile, err = os.Create(op.FileName)
+	if op.file != nil {
+		op.file.Close()
+	}
+	op.file, err = os.Create(op.FileName)
 	if err != nil {
 		return fmt.Errorf("error creating file %s: %s", op.FileName, err.Error())
 	}
-	c.StatsBufWriter = bufio.NewWriter(c.StatsFile)
-
-	c.StatsBufWriter.WriteString(sessionStatsHeader)
-	fmt.Fprintf(c.StatsBufWriter, "[  ['ID','Min','Mean','Max','Location','Scale','Stars','HFR']\n")
-
+	op.offset = 0
+	err = op.writeRowAndFooter(sessionStatsHeader + "[  ['ID','Min','Mean','Max','Location','Scale','Stars','HFR']\n")
+	if err != nil {
+		return err
+	}
+	op.context = c
 	return nil
 }
 
-func (op *OpExportStats) writeStats(f *fits.Image, c *ops.Context) {
+func (op *OpExportStats) writeStats(f *fits.Image, c *ops.Context) error {
 	fmt.Fprintf(c.Log, "%d: writing statistics to file %s ...\n", f.ID, op.FileName)
 	s := f.Stats
-	fmt.Fprintf(c.StatsBufWriter, "  ,[%d,%f,%f,%f,%f,%f,%d,%f]\n",
-		f.ID, s.Min(), s.Mean(), s.Max(), s.Location(), s.Scale(), len(f.Stars), f.HFR)
+	return op.writeRowAndFooter(fmt.Sprintf("  ,[%d,%f,%f,%f,%f,%f,%d,%f]\n",
+		f.ID, s.Min(), s.Mean(), s.Max(), s.Location(), s.Scale(), len(f.Stars), f.HFR))
 }
 
-func (op *OpExportStats) writeFooter(c *ops.Context) {
-	fmt.Fprintf(c.Log, "Writing statistics footer to file %s ...\n", op.FileName)
-	fmt.Fprintf(c.StatsBufWriter, "]")
-	c.StatsBufWriter.WriteString(sessionStatsTrailer)
-	c.StatsBufWriter.Flush()
-	c.StatsBufWriter = nil
-	c.StatsFile.Close()
-	c.StatsFile = nil
+// Writes a row followed by the footer, which the next row will overwrite. This keeps the file
+// complete at any time, as the number of frames which reach this step is not known upfront.
+func (op *OpExportStats) writeRowAndFooter(row string) error {
+	_, err := op.file.WriteAt([]byte(row+"]"+sessionStatsTrailer), op.offset)
+	if err != nil {
+		return fmt.Errorf("error writing to file %s: %s", op.FileName, err.Error())
+	}
+	op.offset += int64(len(row))
+	return nil
 }
 
 const sessionStatsHeader = `<html>
diff --git a/internal/ops/stack/stackbatches.go b/internal/ops/stack/stackbatches.go
index 53c9570..16e3358 100644
--- a/internal/ops/stack/stackbatches.go
+++ b/internal/ops/stack/stackbatches.go
@@ -60,8 +60,6 @@ func (op *OpStackBatches) Apply(ins []ops.Promise, c *ops.Context) (fOut *fits.I
 		return nil, err
 	}
 	c.MaxThreads = int(maxThreads)
-	c.StatsTotal = len(insPerm)
-	c.StatsProcessed = 0
 
 	// Process each batch. The first batch sets the reference image
 	stack := (*fits.Image)(nil)
-- 
2.43.0


From 3f738d26c2e57125cae5fb2f3e07d06630b2710a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:31 +0000
Subject: [PATCH 013/105] fix: reference selection keeps frames in place when
 others were skipped or in later batches

---
 internal/ops/ref/refframe.go | 73 +++++++++++++++++++++++++-----------
 1 file changed, 52 insertions(+), 21 deletions(-)

diff --git a/internal/ops/ref/refframe.go b/internal/ops/ref/refframe.go
index 71e021c..a095cb1 100644
--- a/internal/ops/ref/refframe.go
+++ b/internal/ops/ref/refframe.go
@@ -40,11 +40,10 @@ var srTargetStrings = []string{"alignment", "histogram"}
 
 type OpSelectReference struct {
 	ops.OpBase
-	Target       SelRefTarget      `json:"target"`
-	Mode         string            `json:"mode"`
-	StarDetect   *pre.OpStarDetect `json:"starDetect"`
-	mutex        sync.Mutex        `json:"-"`
-	materialized []*fits.Image     `json:"-"`
+	Target     SelRefTarget      `json:"target"`
+	Mode       string            `json:"mode"`
+	StarDetect *pre.OpStarDetect `json:"starDetect"`
+	mutex      sync.Mutex        `json:"-"`
 }
 
 func init() { ops.SetOperatorFactory(func() ops.Operator { return NewOpSelectReferenceDefault() }) } // register the operator for JSON decoding
@@ -85,13 +84,50 @@ func (op *OpSelectReference) MakePromises(ins []ops.Promise, c *ops.Context) (ou
 	}
 
 	outs = make([]ops.Promise, len(ins))
+	mats := &materializedInputs{}
 	for i, _ := range ins {
-		outs[i] = op.applySingle(i, ins, c)
+		outs[i] = op.applySingle(i, ins, mats, c)
 	}
 	return outs, nil
 }
 
-func (op *OpSelectReference) applySingle(i int, ins []ops.Promise, c *ops.Context) ops.Promise {
+// The inputs materialized to select a reference from, in the position of their promise.
+// Contains nil for frames which were skipped by prior operators
+type materializedInputs struct {
+	images []*fits.Image
+	taken  []bool
+}
+
+// Materializes all given inputs
+func (m *materializedInputs) materialize(ins []ops.Promise, maxThreads int) error {
+	images := make([]*fits.Image, len(ins))
+	recorders := make([]ops.Promise, len(ins))
+	for i, in := range ins {
+		i, in := i, in // capture per iteration
+		recorders[i] = func() (f *fits.Image, err error) {
+			f, err = in()
+			images[i] = f
+			return f, err
+		}
+	}
+	if _, err := ops.MaterializeAll(recorders, maxThreads, true); err != nil {
+		return err
+	}
+	m.images, m.taken = images, make([]bool, len(ins))
+	return nil
+}
+
+// Returns the i-th materialized input, and removes the reference to free memory.
+// Materializes it again if it has already been taken
+func (m *materializedInputs) take(i int, ins []ops.Promise) (f *fits.Image, err error) {
+	if m.taken[i] {
+		return ins[i]()
+	}
+	f, m.images[i], m.taken[i] = m.images[i], nil, true
+	return f, nil
+}
+
+func (op *OpSelectReference) applySingle(i int, ins []ops.Promise, mats *materializedInputs, c *ops.Context) ops.Promise {
 	return func() (f *fits.Image, err error) {
 		op.mutex.Lock()             // lock so a single thread accesses the reference frame
 		if c.RefFrameError != nil { // if reference frame detection failed in a prior thread
@@ -101,13 +137,10 @@ func (op *OpSelectReference) applySingle(i int, ins []ops.Promise, c *ops.Contex
 		if (op.Target == SRAlign && c.AlignStars != nil) ||
 			(op.Target == SRHisto && c.MatchHisto != nil) { // if a reference frame already exists
 			op.mutex.Unlock() // unlock immediately to allow ...
-			if op.materialized == nil || op.materialized[i] == nil {
+			if mats.images == nil {
 				return ins[i]() // ... materializations to be parallelized by the caller
-			} else {
-				mat := op.materialized[i]
-				op.materialized[i] = nil // remove reference to free memory
-				return mat, nil
 			}
+			return mats.take(i, ins)
 		}
 		defer op.mutex.Unlock() // else release lock later when reference frame is computed
 
@@ -151,14 +184,14 @@ func (op *OpSelectReference) applySingle(i int, ins []ops.Promise, c *ops.Contex
 		}
 
 		// otherwise, materialize the input promises
-		op.materialized, c.RefFrameError = ops.MaterializeAll(ins, c.MaxThreads, false)
+		c.RefFrameError = mats.materialize(ins, c.MaxThreads)
 		if c.RefFrameError != nil {
 			return nil, c.RefFrameError
 		}
 
 		// Auto-select mode for (L)RGB
 		if mode == "%rgb" {
-			if len(op.materialized) > 3 {
+			if len(mats.images) > 3 {
 				mode, fileID, atoiErr = "3", 3, nil
 			} else {
 				mode = "%starsHFR"
@@ -169,15 +202,15 @@ func (op *OpSelectReference) applySingle(i int, ins []ops.Promise, c *ops.Contex
 		var refScore float32
 		var refFrame *fits.Image
 		if mode == "%starsHFR" {
-			refFrame, refScore, c.RefFrameError = selectReferenceStarsOverHFR(op.materialized)
+			refFrame, refScore, c.RefFrameError = selectReferenceStarsOverHFR(mats.images)
 		} else if mode == "%location" {
-			refFrame, refScore, c.RefFrameError = selectReferenceMedianLoc(op.materialized, c)
+			refFrame, refScore, c.RefFrameError = selectReferenceMedianLoc(mats.images, c)
 		} else if atoiErr == nil {
-			if fileID < 0 || fileID >= len(op.materialized) {
+			if fileID < 0 || fileID >= len(mats.images) {
 				c.RefFrameError = errors.New(fmt.Sprintf("invalid reference file ID %d", fileID))
 				return nil, c.RefFrameError
 			}
-			refFrame = op.materialized[fileID]
+			refFrame = mats.images[fileID]
 		} else {
 			c.RefFrameError = errors.New(fmt.Sprintf("Unknown refrence selection mode '%s'", op.Mode))
 		}
@@ -191,9 +224,7 @@ func (op *OpSelectReference) applySingle(i int, ins []ops.Promise, c *ops.Contex
 		op.assignResults(c, refFrame)
 
 		// return promise for the materialized image of this instance
-		mat := op.materialized[i]
-		op.materialized[i] = nil // remove reference
-		return mat, nil
+		return mats.take(i, ins)
 	}
 }
 
-- 
2.43.0


From 3c06cfde2f6757e6b6f8ad0178e6d3124455f795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:31 +0000
Subject: [PATCH 014/105] fix: reference selection by median location reports
 an error without frames instead of crashing

---
 internal/ops/ref/refframe.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/ops/ref/refframe.go b/internal/ops/ref/refframe.go
index a095cb1..1651ea4 100644
--- a/internal/ops/ref/refframe.go
+++ b/internal/ops/ref/refframe.go
@@ -263,6 +263,10 @@ func selectReferenceMedianLoc(lights []*fits.Image, c *ops.Context) (refFrame *f
 	locs := inParallel(lights, fun, c.MaxThreads)
 	locs = removeNaNs(locs)
 
+	if len(locs) == 0 {
+		return nil, 0, errors.New("Unable to select reference frame without locations")
+	}
+
 	// calculate median
 	medianLoc := qsort.QSelectMedianFloat32(locs)
 
-- 
2.43.0


From af29d1351d4c61103166a9a13415565cb0f7260c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:31 +0000
Subject: [PATCH 015/105] fix: evaluate frames once when the selected alignment
 reference has no stars

---
 internal/ops/ref/refframe.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/ops/ref/refframe.go b/internal/ops/ref/refframe.go
index 1651ea4..8237e80 100644
--- a/internal/ops/ref/refframe.go
+++ b/internal/ops/ref/refframe.go
@@ -23,6 +23,7 @@ import (
 	"github.com/mlnoga/nightlight/internal/ops"
 	"github.com/mlnoga/nightlight/internal/ops/pre"
 	"github.com/mlnoga/nightlight/internal/qsort"
+	"github.com/mlnoga/nightlight/internal/star"
 	"math"
 	"strconv"
 	"sync"
@@ -232,6 +233,9 @@ func (op *OpSelectReference) assignResults(c *ops.Context, refFrame *fits.Image)
 	if op.Target == SRAlign {
 		c.AlignNaxisn = refFrame.Naxisn
 		c.AlignStars = refFrame.Stars
+		if c.AlignStars == nil { // remember that a reference was selected
+			c.AlignStars = []star.Star{}
+		}
 		c.AlignHFR = refFrame.HFR
 	} else if op.Target == SRHisto {
 		c.MatchHisto = refFrame.Stats
-- 
2.43.0


From 5a7612a881895750b6325af70f6f1a36fda04049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:31 +0000
Subject: [PATCH 016/105] fix: select the reference with the given image ID,
 not the position in the batch

---
 internal/ops/ref/refframe.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/internal/ops/ref/refframe.go b/internal/ops/ref/refframe.go
index 8237e80..8033b67 100644
--- a/internal/ops/ref/refframe.go
+++ b/internal/ops/ref/refframe.go
@@ -190,28 +190,36 @@ func (op *OpSelectReference) applySingle(i int, ins []ops.Promise, mats *materia
 			return nil, c.RefFrameError
 		}
 
+		var refScore float32
+		var refFrame *fits.Image
+
 		// Auto-select mode for (L)RGB
 		if mode == "%rgb" {
 			if len(mats.images) > 3 {
-				mode, fileID, atoiErr = "3", 3, nil
+				refFrame = mats.images[3]
 			} else {
 				mode = "%starsHFR"
 			}
 		}
 
 		// select reference with given mode
-		var refScore float32
-		var refFrame *fits.Image
-		if mode == "%starsHFR" {
+		if refFrame != nil {
+			// already selected
+		} else if mode == "%starsHFR" {
 			refFrame, refScore, c.RefFrameError = selectReferenceStarsOverHFR(mats.images)
 		} else if mode == "%location" {
 			refFrame, refScore, c.RefFrameError = selectReferenceMedianLoc(mats.images, c)
 		} else if atoiErr == nil {
-			if fileID < 0 || fileID >= len(mats.images) {
+			for _, f := range mats.images {
+				if f != nil && f.ID == fileID {
+					refFrame = f
+					break
+				}
+			}
+			if refFrame == nil {
 				c.RefFrameError = errors.New(fmt.Sprintf("invalid reference file ID %d", fileID))
 				return nil, c.RefFrameError
 			}
-			refFrame = mats.images[fileID]
 		} else {
 			c.RefFrameError = errors.New(fmt.Sprintf("Unknown refrence selection mode '%s'", op.Mode))
 		}
-- 
2.43.0


From 14fd6b7f77a2121d293238930d86162cc1fc8e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:58 +0000
Subject: [PATCH 017/105] fix: keep histogram reference independent of later
 changes to the reference frame

---
 internal/ops/ref/refframe.go | 2 +-
 internal/stats/stats.go      | 9 +++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/ops/ref/refframe.go b/internal/ops/ref/refframe.go
index 8033b67..f1c3b44 100644
--- a/internal/ops/ref/refframe.go
+++ b/internal/ops/ref/refframe.go
@@ -246,7 +246,7 @@ func (op *OpSelectReference) assignResults(c *ops.Context, refFrame *fits.Image)
 		}
 		c.AlignHFR = refFrame.HFR
 	} else if op.Target == SRHisto {
-		c.MatchHisto = refFrame.Stats
+		c.MatchHisto = refFrame.Stats.Snapshot() // the frame itself may be modified by subsequent operators
 	} else {
 		fmt.Fprintf(c.Log, "Invalid reference selection target %d, skipping.\n", op.Target)
 	}
diff --git a/internal/stats/stats.go b/internal/stats/stats.go
index 9724bf9..f7f3284 100644
--- a/internal/stats/stats.go
+++ b/internal/stats/stats.go
@@ -75,6 +75,15 @@ func NewStatsForChannel(hcl []float32, w int32, ch, numCh int) *Stats {
 	return &Stats{data: hcl[ch*chLen : (ch+1)*chLen], width: w}
 }
 
+// Returns a copy with minimum, mean, maximum, location and scale, which is independent of the underlying data
+func (s *Stats) Snapshot() *Stats {
+	s.Mean()     // ensure these values
+	s.Location() // are calculated
+	res := *s
+	res.FreeData()
+	return &res
+}
+
 func (s *Stats) FreeData() {
 	s.data = nil
 }
-- 
2.43.0


From d6659b2f4d08251341ccd8614bc48bcbb9ce07e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:32 +0000
Subject: [PATCH 018/105] fix: stacking reports missing frames, mismatching
 sizes and unsupported weights as errors

---
 internal/ops/stack/stack.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/internal/ops/stack/stack.go b/internal/ops/stack/stack.go
index 699486b..fb307dd 100644
--- a/internal/ops/stack/stack.go
+++ b/internal/ops/stack/stack.go
@@ -121,12 +121,23 @@ func (op *OpStack) Apply(f []*fits.Image, c *ops.Context) (result *fits.Image, e
 	if mode==StAuto { 
 		mode=autoSelectStackingMode(len(f))
 	}
+	if len(f)==0 {
+		return nil, errors.New("no frames to stack")
+	}
+	for _,l:=range f {
+		if len(l.Data)!=len(f[0].Data) || !fits.EqualInt32Slice(l.Naxisn, f[0].Naxisn) {
+			return nil, errors.New(fmt.Sprintf("%d: Frame size %v differs from %v, cannot stack", l.ID, l.Naxisn, f[0].Naxisn))
+		}
+	}
 	fmt.Fprintf(c.Log, "Stacking %d frames with stacking mode %d and sigma low %g high %g:\n", 
 				len(f), mode, op.SigmaLow, op.SigmaHigh)
 
 	// select weights if applicable
 	weights, err:=getWeights(f, op.Weighting)
 	if err!=nil { return nil, err }
+	if mode==StMADSigma && weights!=nil {
+		return nil, errors.New("MADSigma stacking with weights is still unimplemented")
+	}
 
 	// create return value array
 	data:=make([]float32,len(f[0].Data))
@@ -179,11 +190,7 @@ func (op *OpStack) Apply(f []*fits.Image, c *ops.Context) (result *fits.Image, e
 				}
 
 			case StMADSigma:
-				if weights==nil {
-					clipLow, clipHigh=StackMADSigma(ldBatch, op.RefFrameLoc, op.SigmaLow, op.SigmaHigh, data[lower:upper])
-				} else {
-					panic("MADSigma stacking with weights is still unimplemented")
-				}
+				clipLow, clipHigh=StackMADSigma(ldBatch, op.RefFrameLoc, op.SigmaLow, op.SigmaHigh, data[lower:upper])
 
 			case StLinearFit:
 				clipLow, clipHigh=StackLinearFit(ldBatch, op.RefFrameLoc, op.SigmaLow, op.SigmaHigh, data[lower:upper])
-- 
2.43.0


From 0c6e75285dff1d0ab279292d6c03fdb6988c8f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:32 +0000
Subject: [PATCH 019/105] fix: noise and HFR weights of equally good frames are
 one, not NaN

---
 internal/ops/stack/stack.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/ops/stack/stack.go b/internal/ops/stack/stack.go
index fb307dd..3fe64ee 100644
--- a/internal/ops/stack/stack.go
+++ b/internal/ops/stack/stack.go
@@ -256,7 +256,8 @@ func getWeights(f []*fits.Image, weighting StackWeighting) (weights []float32, e
 		weights =make([]float32, len(f))
 		for i:=0; i<len(f); i+=1 {
 			//f[i].Stats.Noise=nl.EstimateNoise(f[i].Data, f[i].Naxisn[0])
-			weights[i]=1/(1+4*(f[i].Stats.Noise()-minNoise)/(maxNoise-minNoise))
+			weights[i]=1
+			if maxNoise>minNoise { weights[i]=1/(1+4*(f[i].Stats.Noise()-minNoise)/(maxNoise-minNoise)) }
 		}
 	} else if weighting==StWeightInverseHFR { // HFR weighted stacking, smaller HFR gets bigger weight
 		minHFR, maxHFR:=float32(math.MaxFloat32), float32(-math.MaxFloat32)
@@ -268,7 +269,8 @@ func getWeights(f []*fits.Image, weighting StackWeighting) (weights []float32, e
 		weights =make([]float32, len(f))
 		for i:=0; i<len(f); i+=1 {
 			//f[i].Stats.Noise=nl.EstimateNoise(f[i].Data, f[i].Naxisn[0])
-			weights[i]=1/(1+4*(f[i].HFR-minHFR)/(maxHFR-minHFR))
+			weights[i]=1
+			if maxHFR>minHFR { weights[i]=1/(1+4*(f[i].HFR-minHFR)/(maxHFR-minHFR)) }
 		}
 	} else {
 		return nil, errors.New(fmt.Sprintf("Invalid weighting mode %d\n", weighting))
-- 
2.43.0


From 79ea71f22e6ff90368e241cc214d34373d57061b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:32 +0000
Subject: [PATCH 020/105] fix: weighted sigma stacking keeps each value with
 the weight of its own frame

---
 internal/ops/stack/stack.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/internal/ops/stack/stack.go b/internal/ops/stack/stack.go
index 3fe64ee..1f6aa9c 100644
--- a/internal/ops/stack/stack.go
+++ b/internal/ops/stack/stack.go
@@ -451,6 +451,7 @@ func StackSigma(lightsData [][]float32, RefFrameLoc, sigmaLow, sigmaHigh float32
 func StackSigmaWeighted(lightsData [][]float32, weights []float32, RefFrameLoc, sigmaLow, sigmaHigh float32, res []float32) (clipLow, clipHigh int32) {
 	gatheredFull:=make([]float32,len(lightsData))
 	weightsFull :=make([]float32,len(weights))
+	scratchFull :=make([]float32,len(lightsData))
 	numClippedLow, numClippedHigh:=int32(0), int32(0)
 
 	// for all pixels
@@ -493,7 +494,10 @@ func StackSigmaWeighted(lightsData [][]float32, weights []float32, RefFrameLoc,
 		for {
 
 			// calculate median, mean, standard deviation and variance across gathered data
-			median:=qsort.QSelectMedianFloat32(gatheredCur)
+			// (on a copy, as selection reorders the values, but not their weights)
+			scratch:=scratchFull[:len(gatheredCur)]
+			copy(scratch, gatheredCur)
+			median:=qsort.QSelectMedianFloat32(scratch)
 			_, stdDev:=stats.MeanStdDev(gatheredCur)
 
 			// remove out-of-bounds values
@@ -719,6 +723,7 @@ func StackWinsorSigma(lightsData [][]float32, RefFrameLoc, sigmaLow, sigmaHigh f
 func StackWinsorSigmaWeighted(lightsData [][]float32, weights []float32, RefFrameLoc, sigmaLow, sigmaHigh float32, res []float32) (clipLow, clipHigh int32) {
 	gatheredFull  :=make([]float32,len(lightsData))
 	weightsFull   :=make([]float32,len(weights))
+	scratchFull   :=make([]float32,len(lightsData))
 	winsorizedFull:=make([]float32,len(lightsData))
 	numClippedLow, numClippedHigh:=int32(0), int32(0)
 
@@ -762,7 +767,10 @@ func StackWinsorSigmaWeighted(lightsData [][]float32, weights []float32, RefFram
 		for {
 
 			// calculate median and standard deviation across all frames
-			median:=qsort.QSelectMedianFloat32(gatheredCur)
+			// (on a copy, as selection reorders the values, but not their weights)
+			scratch:=scratchFull[:len(gatheredCur)]
+			copy(scratch, gatheredCur)
+			median:=qsort.QSelectMedianFloat32(scratch)
 			_, stdDev:=stats.MeanStdDev(gatheredCur)
 
 			// calculate winsorized standard deviation (removes outliers/tighter)
-- 
2.43.0


From 2dc9fab0b294fb8a3c7c79464db1b7cbef4ec41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:15 +0000
Subject: [PATCH 021/105] fix: pixels whose values are all clipped stack to a
 valid value instead of NaN

---
 internal/ops/stack/stack.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/ops/stack/stack.go b/internal/ops/stack/stack.go
index 1f6aa9c..f20a9b2 100644
--- a/internal/ops/stack/stack.go
+++ b/internal/ops/stack/stack.go
@@ -532,6 +532,7 @@ func StackSigmaWeighted(lightsData [][]float32, weights []float32, RefFrameLoc,
             		weightsSum +=weightsCur[i]
             	}
 				res[i]=weightedSum/weightsSum
+				if len(gatheredCur)==0 { res[i]=median } // all values were out of bounds
             	break
             }
 		}
@@ -611,6 +612,7 @@ func StackMADSigma(lightsData [][]float32, RefFrameLoc, sigmaLow, sigmaHigh floa
 		for _,g:=range(gatheredCur) { mean+=g }
 		mean/=float32(len(gatheredCur))
 		res[i]=mean		
+		if len(gatheredCur)==0 { res[i]=median } // all values were out of bounds
 	}
 
 	gatheredFull=nil
@@ -833,6 +835,7 @@ func StackWinsorSigmaWeighted(lightsData [][]float32, weights []float32, RefFram
             		weightsSum +=weightsCur[i]
             	}
 				res[i]=weightedSum/weightsSum
+				if len(gatheredCur)==0 { res[i]=median } // all values were out of bounds
             	break
             }
         }
@@ -920,7 +923,7 @@ func StackLinearFit(lightsData [][]float32, RefFrameLoc, sigmaLow, sigmaHigh flo
 				}				
 			}
 
-			if left==0 || len(gatheredCur)<3{
+			if left==0 || left==len(gatheredCur) || len(gatheredCur)<3{
             	break
             }
 			gatheredCur=gatheredCur[left:]
-- 
2.43.0


From feec866b5ee48d9d3b8c7981a706ac8d60e51588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:16 +0000
Subject: [PATCH 022/105] fix: negative (automatic) stacking sigmas use the
 defaults instead of clipping everything

---
 internal/ops/stack/stack.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/internal/ops/stack/stack.go b/internal/ops/stack/stack.go
index f20a9b2..59d3b55 100644
--- a/internal/ops/stack/stack.go
+++ b/internal/ops/stack/stack.go
@@ -121,6 +121,9 @@ func (op *OpStack) Apply(f []*fits.Image, c *ops.Context) (result *fits.Image, e
 	if mode==StAuto { 
 		mode=autoSelectStackingMode(len(f))
 	}
+	sigmaLow, sigmaHigh:=op.SigmaLow, op.SigmaHigh // negative means automatic, use defaults
+	if sigmaLow <0 { sigmaLow =NewOpStackDefault().SigmaLow  }
+	if sigmaHigh<0 { sigmaHigh=NewOpStackDefault().SigmaHigh }
 	if len(f)==0 {
 		return nil, errors.New("no frames to stack")
 	}
@@ -130,7 +133,7 @@ func (op *OpStack) Apply(f []*fits.Image, c *ops.Context) (result *fits.Image, e
 		}
 	}
 	fmt.Fprintf(c.Log, "Stacking %d frames with stacking mode %d and sigma low %g high %g:\n", 
-				len(f), mode, op.SigmaLow, op.SigmaHigh)
+				len(f), mode, sigmaLow, sigmaHigh)
 
 	// select weights if applicable
 	weights, err:=getWeights(f, op.Weighting)
@@ -177,23 +180,23 @@ func (op *OpStack) Apply(f []*fits.Image, c *ops.Context) (result *fits.Image, e
 
 			case StSigma:
 				if weights==nil {
-					clipLow, clipHigh=StackSigma(ldBatch, op.RefFrameLoc, op.SigmaLow, op.SigmaHigh, data[lower:upper])
+					clipLow, clipHigh=StackSigma(ldBatch, op.RefFrameLoc, sigmaLow, sigmaHigh, data[lower:upper])
 				} else {
-					clipLow, clipHigh=StackSigmaWeighted(ldBatch, weights, op.RefFrameLoc, op.SigmaLow, op.SigmaHigh, data[lower:upper])
+					clipLow, clipHigh=StackSigmaWeighted(ldBatch, weights, op.RefFrameLoc, sigmaLow, sigmaHigh, data[lower:upper])
 				}
 
 			case StWinsorSigma:
 				if weights==nil {
-					clipLow, clipHigh=StackWinsorSigma(ldBatch, op.RefFrameLoc, op.SigmaLow, op.SigmaHigh, data[lower:upper])
+					clipLow, clipHigh=StackWinsorSigma(ldBatch, op.RefFrameLoc, sigmaLow, sigmaHigh, data[lower:upper])
 				} else {
-					clipLow, clipHigh=StackWinsorSigmaWeighted(ldBatch, weights, op.RefFrameLoc, op.SigmaLow, op.SigmaHigh, data[lower:upper])
+					clipLow, clipHigh=StackWinsorSigmaWeighted(ldBatch, weights, op.RefFrameLoc, sigmaLow, sigmaHigh, data[lower:upper])
 				}
 
 			case StMADSigma:
-				clipLow, clipHigh=StackMADSigma(ldBatch, op.RefFrameLoc, op.SigmaLow, op.SigmaHigh, data[lower:upper])
+				clipLow, clipHigh=StackMADSigma(ldBatch, op.RefFrameLoc, sigmaLow, sigmaHigh, data[lower:upper])
 
 			case StLinearFit:
-				clipLow, clipHigh=StackLinearFit(ldBatch, op.RefFrameLoc, op.SigmaLow, op.SigmaHigh, data[lower:upper])
+				clipLow, clipHigh=StackLinearFit(ldBatch, op.RefFrameLoc, sigmaLow, sigmaHigh, data[lower:upper])
 			} 
 
 			// update clipping totals
-- 
2.43.0


From c36bef0817d74abe69c1329bb0b32656a513b436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:16 +0000
Subject: [PATCH 023/105] fix: linear regression slope is not biased by one
 sample too many

---
 internal/stats/stats.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/stats/stats.go b/internal/stats/stats.go
index f7f3284..2619d1d 100644
--- a/internal/stats/stats.go
+++ b/internal/stats/stats.go
@@ -585,7 +585,7 @@ func LinearRegression(xs, ys []float32) (slope, intercept, xmean, xstddev, ymean
 		diff := (xs[i] - xmean) * (ys[i] - ymean)
 		corr += diff
 	}
-	corr /= xstddev * ystddev * (float32(len(xs)) + 1)
+	corr /= xstddev * ystddev * float32(len(xs))
 
 	// calculate the regression line
 	slope = corr * ystddev / xstddev
-- 
2.43.0


From 4acbad55cebed71ed2e88f6160b3fe1be3618725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:01 +0000
Subject: [PATCH 024/105] fix: batched stacking no longer drops frames when
 smaller batches need more of them

---
 internal/ops/stack/stackbatches.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/ops/stack/stackbatches.go b/internal/ops/stack/stackbatches.go
index 16e3358..0d0567d 100644
--- a/internal/ops/stack/stackbatches.go
+++ b/internal/ops/stack/stackbatches.go
@@ -170,6 +170,7 @@ func (op *OpStackBatches) partition(ins []ops.Promise, c *ops.Context) (insPerm
 		if batchSize < 2 {
 			continue
 		}
+		numBatches = (numFrames + batchSize - 1) / batchSize // smaller batches may need more of them
 		if batchSize < int64(maxThreads) {
 			continue
 		}
-- 
2.43.0


From 0f3cf6f26f0869d9023a9f5df8ae2d03f5b90f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:01 +0000
Subject: [PATCH 025/105] fix: batch memory estimate handles skipped frames and
 images of any dimension

---
 internal/ops/stack/stackbatches.go | 33 +++++++++++++++++-------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/internal/ops/stack/stackbatches.go b/internal/ops/stack/stackbatches.go
index 0d0567d..3ad486d 100644
--- a/internal/ops/stack/stackbatches.go
+++ b/internal/ops/stack/stackbatches.go
@@ -119,27 +119,32 @@ func (op *OpStackBatches) Apply(ins []ops.Promise, c *ops.Context) (fOut *fits.I
 func (op *OpStackBatches) partition(ins []ops.Promise, c *ops.Context) (insPerm []ops.Promise,
 	numBatches, batchSize, maxThreads int64, err error) {
 	numFrames := int64(len(ins))
-	width, height := int64(0), int64(0)
+	pixels, naxisn := int64(0), []int32(nil)
 	if c.DarkFrame != nil {
-		width, height = int64(c.DarkFrame.Naxisn[0]), int64(c.DarkFrame.Naxisn[1])
+		pixels, naxisn = int64(c.DarkFrame.Pixels), c.DarkFrame.Naxisn
 	} else if c.FlatFrame != nil {
-		width, height = int64(c.FlatFrame.Naxisn[0]), int64(c.FlatFrame.Naxisn[1])
-	} else if len(ins) > 0 {
-		first, err := ins[0]()
-		if err != nil {
-			return nil, 0, 0, 0, err
-		}
-		fmt.Fprintf(c.Log, "\nEstimating memory needs for %d images from %s:\n", numFrames, first.FileName)
-		width, height = int64(first.Naxisn[0]), int64(first.Naxisn[1])
+		pixels, naxisn = int64(c.FlatFrame.Pixels), c.FlatFrame.Naxisn
 	} else {
+		for _, in := range ins { // find first frame which has not been skipped
+			first, err := in()
+			if err != nil {
+				return nil, 0, 0, 0, err
+			}
+			if first != nil {
+				fmt.Fprintf(c.Log, "\nEstimating memory needs for %d images from %s:\n", numFrames, first.FileName)
+				pixels, naxisn = int64(first.Pixels), first.Naxisn
+				break
+			}
+		}
+	}
+	if pixels == 0 {
 		return nil, 0, 0, 0, errors.New("No input files to prepare batches")
 	}
-	pixels := width * height
-	mPixels := float32(width) * float32(height) * 1e-6
+	mPixels := float32(pixels) * 1e-6
 	bytes := pixels * 4
 	mib := bytes / 1024 / 1024
-	fmt.Fprintf(c.Log, "%d images of %dx%d pixels (%.1f MPixels), which each take %d MiB in-memory as floating point.\n",
-		numFrames, width, height, mPixels, mib)
+	fmt.Fprintf(c.Log, "%d images of %v pixels (%.1f MPixels), which each take %d MiB in-memory as floating point.\n",
+		numFrames, naxisn, mPixels, mib)
 
 	availableFrames := (int64(c.StackMemoryMB) * 1024 * 1024) / bytes // rounding down
 	maxThreads = int64(runtime.GOMAXPROCS(0))
-- 
2.43.0


From 55fa441a530c188a26ee4e4c70f8989a71eec657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:01 +0000
Subject: [PATCH 026/105] fix: batched stacking reports missing or differently
 sized batch results as errors

---
 internal/ops/stack/stackbatches.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/ops/stack/stackbatches.go b/internal/ops/stack/stackbatches.go
index 3ad486d..17da2fa 100644
--- a/internal/ops/stack/stackbatches.go
+++ b/internal/ops/stack/stackbatches.go
@@ -91,6 +91,13 @@ func (op *OpStackBatches) Apply(ins []ops.Promise, c *ops.Context) (fOut *fits.I
 			return nil, err
 		}
 
+		if batch == nil {
+			return nil, errors.New("stacking a batch returned no image")
+		}
+		if stack != nil && !fits.EqualInt32Slice(stack.Naxisn, batch.Naxisn) {
+			return nil, fmt.Errorf("batch size %v differs from %v of earlier batches", batch.Naxisn, stack.Naxisn)
+		}
+
 		// Update stack of stacks
 		if numBatches > 1 {
 			stack = StackIncremental(stack, batch, float32(batchFrames))
-- 
2.43.0


From c70a26c95716e80527dc53db27ea2207ca62a5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:13 +0000
Subject: [PATCH 027/105] fix: vectorised minimum, mean, maximum and variance
 no longer read beyond the end of the data

---
 internal/stats/stats_amd64.go | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/internal/stats/stats_amd64.go b/internal/stats/stats_amd64.go
index 4022bc7..cc4427f 100644
--- a/internal/stats/stats_amd64.go
+++ b/internal/stats/stats_amd64.go
@@ -23,23 +23,36 @@ import (
 
 // Calculate minimum, mean and maximum of given data
 func calcMinMeanMax(data []float32) (min, mean, max float32) {
-    if cpuid.CPU.AVX2() {
-        return calcMinMeanMaxAVX2(data)
+    n:=len(data) &^ 3 // AVX2 implementation works on four elements at a time
+    if n==0 || !cpuid.CPU.AVX2() {
+        return calcMinMeanMaxPureGo(data)
     }
-    return calcMinMeanMaxPureGo(data)
+    min, mean, max = calcMinMeanMaxAVX2(data[:n])
+    if n<len(data) {
+        tMin, tMean, tMax := calcMinMeanMaxPureGo(data[n:])
+        if tMin<min { min=tMin }
+        if tMax>max { max=tMax }
+        mean=float32((float64(mean)*float64(n) + float64(tMean)*float64(len(data)-n)) / float64(len(data)))
+    }
+    return min, mean, max
 }
 
-// Calculate minimum, mean and maximum of given data. AVX2 implementation
+// Calculate minimum, mean and maximum of given data. AVX2 implementation. Data length must be a multiple of four
 func calcMinMeanMaxAVX2(data []float32) (min, mean, max float32)
 
 
 // Calculate variance of given data from provided mean. 
 func calcVariance(data []float32, mean float32) (result float64) {
-    if cpuid.CPU.AVX2() {
-		return calcVarianceAVX2(data, mean)
+    n:=len(data) &^ 3 // AVX2 implementation works on four elements at a time
+    if n==0 || !cpuid.CPU.AVX2() {
+		return calcVariancePureGo(data, mean)
+    }
+	result = calcVarianceAVX2(data[:n], mean)
+    if n<len(data) {
+		result = (result*float64(n) + calcVariancePureGo(data[n:], mean)*float64(len(data)-n)) / float64(len(data))
     }
-	return calcVariancePureGo(data, mean)
+	return result
 }
 
-// Calculate variance of given data from provided mean. AVX2 implementation
+// Calculate variance of given data from provided mean. AVX2 implementation. Data length must be a multiple of four
 func calcVarianceAVX2(data []float32, mean float32) (result float64)
-- 
2.43.0


From bf3dbcacb2f496e5f82117ba21a9b65528126e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:13 +0000
Subject: [PATCH 028/105] fix: vectorised median filter and noise estimate no
 longer access memory outside narrow images

---
 internal/median/median3x3_amd64.go | 2 +-
 internal/stats/noise_amd64.go      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/median/median3x3_amd64.go b/internal/median/median3x3_amd64.go
index 5f9f3c1..cc626e3 100644
--- a/internal/median/median3x3_amd64.go
+++ b/internal/median/median3x3_amd64.go
@@ -25,7 +25,7 @@ import (
 // Applies 3x3 median filter to input data, assumed to be a 2D array with given line width, and stores results in output.
 // Copies over the outermost rows and columns unchanged.
 func MedianFilter3x3(output, data []float32, width int32) {
-    if cpuid.CPU.AVX2() {
+    if cpuid.CPU.AVX2() && width>=8 { // AVX2 implementation works on eight columns at a time
       medianFilter3x3AVX2(output, data, width)
     } else {
       medianFilter3x3PureGo(output, data,width)
diff --git a/internal/stats/noise_amd64.go b/internal/stats/noise_amd64.go
index 226d55c..fc70b82 100644
--- a/internal/stats/noise_amd64.go
+++ b/internal/stats/noise_amd64.go
@@ -25,7 +25,7 @@ import (
 // Estimate the level of gaussian noise on a natural image.
 // From J. Immerkær, “Fast Noise Variance Estimation”, Computer Vision and Image Understanding, Vol. 64, No. 2, pp. 300-302, Sep. 1996
 func EstimateNoise(data []float32, width int32) float32 {
-    if cpuid.CPU.AVX2() {
+    if cpuid.CPU.AVX2() && width>=8 { // AVX2 implementation works on eight columns at a time
         return estimateNoiseAVX2(data, width)
     }
     return estimateNoisePureGo(data,width)
-- 
2.43.0


From 0c94a787a554b13cec39801d91dbf2f861470938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:30 +0000
Subject: [PATCH 029/105] fix: median of a neighbourhood cut off at the image
 border ignores stale buffer entries

---
 internal/median/gather.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/median/gather.go b/internal/median/gather.go
index 5d68a89..04aaf7e 100644
--- a/internal/median/gather.go
+++ b/internal/median/gather.go
@@ -34,5 +34,5 @@ func GatherAndMedian(data []float32, index int32, mask []int32, buffer []float32
 		}
 	}
 
-	return MedianFloat32(buffer)
+	return MedianFloat32(buffer[:num])
 }
-- 
2.43.0


From 56ac5b2d87f62ccea9cc6ec051e299a5d319be38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:30 +0000
Subject: [PATCH 030/105] fix: noise estimate of images without inner pixels is
 zero, not NaN

---
 internal/stats/noise.go       | 1 +
 internal/stats/noise_amd64.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/internal/stats/noise.go b/internal/stats/noise.go
index 730f043..9d19b60 100644
--- a/internal/stats/noise.go
+++ b/internal/stats/noise.go
@@ -37,6 +37,7 @@ func estimateNoisePureGo(data []float32, width int32) float32 {
     }
 
     height:=int32(len(data))/width
+    if width<3 || height<3 { return 0 } // no pixels with a full neighborhood
     sum:=float32(0)
     for y:=int32(1); y<height-1; y++ {
         rowSum:=float32(0)
diff --git a/internal/stats/noise_amd64.go b/internal/stats/noise_amd64.go
index fc70b82..3ae1cfc 100644
--- a/internal/stats/noise_amd64.go
+++ b/internal/stats/noise_amd64.go
@@ -34,6 +34,7 @@ func EstimateNoise(data []float32, width int32) float32 {
 // Estimate the level of gaussian noise on a natural image. AVX2 implementation for full image
 func estimateNoiseAVX2(data []float32, width int32) float32 {
     height:=len(data)/int(width)
+    if width<3 || height<3 { return 0 } // no pixels with a full neighborhood
 
     sum:=float32(0)
     for line:=int(0); line<height-2; line++ {
-- 
2.43.0


From be69b254e67268fe94855160dddf6b9ef6947df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:14 +0000
Subject: [PATCH 031/105] fix: statistics stay valid when pixel values are
 multiplied by a negative number

---
 internal/stats/stats.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/stats/stats.go b/internal/stats/stats.go
index 2619d1d..ae223cb 100644
--- a/internal/stats/stats.go
+++ b/internal/stats/stats.go
@@ -101,6 +101,11 @@ func (s *Stats) UpdateCachedWith(multiplier, offset float32) {
 	s.min = s.min*multiplier + offset
 	s.max = s.max*multiplier + offset
 	s.mean = s.mean*multiplier + offset
+	if multiplier < 0 { // swaps minimum and maximum, spread stays positive
+		s.min, s.max = s.max, s.min
+		multiplier = -multiplier
+		s.location = -s.location
+	}
 	s.stdDev = s.stdDev * multiplier
 	s.location = s.location*multiplier + offset
 	s.scale = s.scale * multiplier
-- 
2.43.0


From 108b90eeeaf6f75671f073665045e65c9749ea19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:15 +0000
Subject: [PATCH 032/105] fix: location and scale estimation terminates for
 images with few values near the median

---
 internal/stats/stats.go | 59 ++++++++++++++++++++++++-----------------
 1 file changed, 35 insertions(+), 24 deletions(-)

diff --git a/internal/stats/stats.go b/internal/stats/stats.go
index ae223cb..ffbb9a7 100644
--- a/internal/stats/stats.go
+++ b/internal/stats/stats.go
@@ -358,22 +358,26 @@ func FastApproxMedian(data []float32, samples []float32) float32 {
 	return median
 }
 
+// Maximum number of tries per sample to find data within the given bounds
+const maxTriesPerSample = 64
+
 // Calculates fast approximate median of the (presumably large) data by subsampling the given number of values and taking the median of that.
 // Uses provided samples array as scratchpad
 func FastApproxBoundedMedian(data []float32, lowBound, highBound float32, samples []float32) float32 {
 	max := uint32(len(data))
 	rng := fastrand.RNG{}
-	for i := range samples {
-		var d float32
-		for {
-			d = data[rng.Uint32n(max)]
-			if d >= lowBound && d <= highBound {
-				break
-			}
+	numSampled := 0
+	for tries := 0; numSampled < len(samples) && tries < maxTriesPerSample*len(samples); tries++ {
+		d := data[rng.Uint32n(max)]
+		if d >= lowBound && d <= highBound {
+			samples[numSampled] = d
+			numSampled++
 		}
-		samples[i] = d
 	}
-	median := qsort.QSelectMedianFloat32(samples)
+	if numSampled == 0 { // no data within the bounds
+		return 0.5 * (lowBound + highBound)
+	}
+	median := qsort.QSelectMedianFloat32(samples[:numSampled])
 	return median
 }
 
@@ -448,6 +452,9 @@ func FastApproxBoundedMAD(data []float32, location float32, lowBound, highBound
 // Original n*log n implementation technical report https://www.researchgate.net/profile/Christophe_Croux/publication/228595593_Time-Efficient_Algorithms_for_Two_Highly_Robust_Estimators_of_Scale/links/09e4150f52c2fcabb0000000/Time-Efficient-Algorithms-for-Two-Highly-Robust-Estimators-of-Scale.pdf
 // Sampling approach appears to be mine
 func FastApproxQn(data []float32, samples []float32) float32 {
+	if len(data) < 2 {
+		return 0 // no pairs
+	}
 	max := uint32(len(data))
 	rng := fastrand.RNG{}
 	for i := range samples {
@@ -462,24 +469,28 @@ func FastApproxQn(data []float32, samples []float32) float32 {
 
 // Calculates fast approximate Qn scale estimate of the (presumably large) data by subsampling the given number of pairs and taking the first quartile of that.
 func FastApproxBoundedQn(data []float32, lowBound, highBound float32, samples []float32) float32 {
+	if len(data) < 2 {
+		return 0 // no pairs
+	}
 	max := uint32(len(data))
 	rng := fastrand.RNG{}
-	for i := range samples {
-		var d1, d2 float32
-		for {
-			index1 := 1 + rng.Uint32n(max-1)
-			d1 = data[index1]
-			if d1 < lowBound || d1 > highBound {
-				continue
-			}
-			d2 = data[rng.Uint32n(index1)]
-			if d2 >= lowBound && d2 <= highBound {
-				break
-			}
+	numSampled := 0
+	for tries := 0; numSampled < len(samples) && tries < maxTriesPerSample*len(samples); tries++ {
+		index1 := 1 + rng.Uint32n(max-1)
+		d1 := data[index1]
+		if d1 < lowBound || d1 > highBound {
+			continue
 		}
-		samples[i] = float32(math.Abs(float64(d1 - d2)))
+		d2 := data[rng.Uint32n(index1)]
+		if d2 >= lowBound && d2 <= highBound {
+			samples[numSampled] = float32(math.Abs(float64(d1 - d2)))
+			numSampled++
+		}
+	}
+	if numSampled == 0 { // no pairs within the bounds
+		return 0
 	}
-	qn := qsort.QSelectFirstQuartileFloat32(samples) * 2.21914 // normalize to Gaussian std dev, for large numSamples >>1000
+	qn := qsort.QSelectFirstQuartileFloat32(samples[:numSampled]) * 2.21914 // normalize to Gaussian std dev, for large numSamples >>1000
 	// Original paper had wrong constant, source for constant https://rdrr.io/cran/robustbase/man/Qn.html
 	samples = nil
 	return qn
@@ -495,7 +506,7 @@ func FastApproxSigmaClippedMedianAndQn(data []float32, sigmaLow, sigmaHigh float
 
 	for i := 0; ; i++ {
 		lowBound := location - sigmaLow*scale
-		highBound := location + sigmaLow*scale
+		highBound := location + sigmaHigh*scale
 
 		newLocation := FastApproxBoundedMedian(data, lowBound, highBound, samples) // sampling
 		newScale := FastApproxBoundedQn(data, lowBound, highBound, samples)        // sampling
-- 
2.43.0


From 18697f4e0afe38f4581b8489a5f3aada0eb8f772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:15 +0000
Subject: [PATCH 033/105] fix: IKSS estimation terminates for images with
 mostly equal pixels

---
 internal/stats/stats.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/stats/stats.go b/internal/stats/stats.go
index ffbb9a7..cdb0a7a 100644
--- a/internal/stats/stats.go
+++ b/internal/stats/stats.go
@@ -531,6 +531,9 @@ func bwmv(xs []float32, median float32, tmp []float32) float32 {
 	}
 	mad := qsort.QSelectMedianFloat32(mads)
 	mads = nil
+	if mad == 0 { // more than half of the values are equal
+		return 0
+	}
 
 	ys := tmp[:len(xs)]
 	for i, x := range xs {
-- 
2.43.0


From 6695ed6c15d1f4dab25d416208854b2bc9f7776a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:33 +0000
Subject: [PATCH 034/105] fix: IKSS estimation terminates for images with
 pixels very far from the median

---
 internal/stats/stats.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/internal/stats/stats.go b/internal/stats/stats.go
index cdb0a7a..f8b0c34 100644
--- a/internal/stats/stats.go
+++ b/internal/stats/stats.go
@@ -543,18 +543,17 @@ func bwmv(xs []float32, median float32, tmp []float32) float32 {
 	numSum, denomSum := float32(0), float32(0)
 	for i, x := range xs {
 		y := ys[i]
-		a := float32(0)
-		if y > -1 && y < 1 {
-			a = float32(1)
+		if !(y > -1 && y < 1) { // no weight for far outliers, also avoids overflow to 0*Inf=NaN
+			continue
 		}
 
 		xMinusM := x - median
 		oneMinusYSquared := 1 - y*y
 		oneMinusYSquaredSquared := oneMinusYSquared * oneMinusYSquared
-		numSum += a * xMinusM * xMinusM * oneMinusYSquaredSquared * oneMinusYSquaredSquared
+		numSum += xMinusM * xMinusM * oneMinusYSquaredSquared * oneMinusYSquaredSquared
 
 		oneMinus5YSquared := 1 - 5*y*y
-		denomSum += a * oneMinusYSquared * oneMinus5YSquared
+		denomSum += oneMinusYSquared * oneMinus5YSquared
 	}
 	return float32(len(xs)) * numSum / (denomSum * denomSum)
 }
-- 
2.43.0


From cc84bf3ae1398be5b203b85816be147c59998f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:42 +0000
Subject: [PATCH 035/105] fix: IKSS estimation clips outliers of images with a
 scale of one or more, too

---
 internal/stats/stats.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/stats/stats.go b/internal/stats/stats.go
index f8b0c34..4c13e6a 100644
--- a/internal/stats/stats.go
+++ b/internal/stats/stats.go
@@ -567,7 +567,7 @@ func IKSS(data []float32, epsilon float32, e float32) (location, scale float32)
 	tmp := make([]float32, len(data))
 
 	i, j := 0, len(xs)
-	s0 := float32(1)
+	s0 := float32(math.Inf(1)) // clip at least once, whatever the range of the data
 	for {
 		if j-i < 1 {
 			return 0, 0
-- 
2.43.0


From 3624265c7191beffe026a06a0281e0c5a64a0a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:45 +0000
Subject: [PATCH 036/105] fix: blurring images smaller than the blur kernel
 stays within the image

---
 internal/ops/stretch/usm.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/internal/ops/stretch/usm.go b/internal/ops/stretch/usm.go
index 91ad6b0..cb2419e 100644
--- a/internal/ops/stretch/usm.go
+++ b/internal/ops/stretch/usm.go
@@ -23,11 +23,13 @@ const sqrt2 float32 = float32(math.Sqrt2)
 
 // Check if coordinate is within [0, size-1], and if not, reflect out of bounds coordinates back into the value range
 func reflect(size, x int) int {
-	if x < 0 {
-		return -x - 1
-	}
-	if x >= size {
-		return 2*size - x - 1
+	for x < 0 || x >= size { // images smaller than the kernel may need several reflections
+		if x < 0 {
+			x = -x - 1
+		}
+		if x >= size {
+			x = 2*size - x - 1
+		}
 	}
 	return x
 }
-- 
2.43.0


From fd2938516f3a75adecad156a598e6820ff6ffc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:46 +0000
Subject: [PATCH 037/105] fix: blurring with small or negative sigma no longer
 crashes or hangs

---
 internal/ops/stretch/stretch.go | 4 ++--
 internal/ops/stretch/usm.go     | 3 +++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/ops/stretch/stretch.go b/internal/ops/stretch/stretch.go
index fdace99..ec3bf25 100644
--- a/internal/ops/stretch/stretch.go
+++ b/internal/ops/stretch/stretch.go
@@ -366,7 +366,7 @@ func (op *OpGaussianBlur) UnmarshalJSON(data []byte) error {
 }
 
 func (op *OpGaussianBlur) Apply(f *fits.Image, c *ops.Context) (result *fits.Image, err error) {
-	if op.Sigma==0 { return f, nil }
+	if op.Sigma<=0 { return f, nil }
 
 	kernel:=GaussianKernel1D(op.Sigma)
 	fmt.Fprintf(c.Log, "%d: Gaussian blur kernel sigma %.2f size %d: %v\n", 
@@ -411,7 +411,7 @@ func (op *OpUnsharpMask) UnmarshalJSON(data []byte) error {
 }
 
 func (op *OpUnsharpMask) Apply(f *fits.Image, c *ops.Context) (result *fits.Image, err error) {
-	if op.Sigma==0 || op.Gain==0 { return f, nil }
+	if op.Sigma<=0 || op.Gain==0 { return f, nil }
 
 	absThresh:=f.Stats.Location() + f.Stats.Scale()*op.Threshold
 	fmt.Fprintf(c.Log, "%d: Unsharp masking with sigma %.3g gain %.3g thresh %.3g absThresh %.3g\n", 
diff --git a/internal/ops/stretch/usm.go b/internal/ops/stretch/usm.go
index cb2419e..b9a5bae 100644
--- a/internal/ops/stretch/usm.go
+++ b/internal/ops/stretch/usm.go
@@ -54,6 +54,9 @@ func GaussianKernel1D(sigma float32) (kernel []float32) {
 		}
 		radius++
 	}
+	if radius < 0 { // for narrow gaussians
+		radius = 0
+	}
 	width := 2*radius + 1
 	kernel = make([]float32, width)
 
-- 
2.43.0


From cbb8a7487963bf2aff2f3d3403b43b76d98eb932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:46 +0000
Subject: [PATCH 038/105] fix: blur and unsharp mask treat color channels
 separately and update statistics

---
 internal/ops/stretch/stretch.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/internal/ops/stretch/stretch.go b/internal/ops/stretch/stretch.go
index ec3bf25..852bfcb 100644
--- a/internal/ops/stretch/stretch.go
+++ b/internal/ops/stretch/stretch.go
@@ -335,6 +335,17 @@ func (op *OpScaleBlack) Apply(f *fits.Image, c *ops.Context) (result *fits.Image
 }
 
 
+// Returns the data of the 2D planes (e.g. color channels) of the given image
+func planes(f *fits.Image) (ps [][]float32) {
+	size:=len(f.Data)
+	if len(f.Naxisn)>=2 { size=int(f.Naxisn[0]) * int(f.Naxisn[1]) }
+	for lower:=0; lower+size<=len(f.Data) && size>0; lower+=size {
+		ps=append(ps, f.Data[lower:lower+size])
+	}
+	return ps
+}
+
+
 // An operator to apply gaussian blurring to an image
 type OpGaussianBlur struct {
 	ops.OpUnaryBase
@@ -371,7 +382,10 @@ func (op *OpGaussianBlur) Apply(f *fits.Image, c *ops.Context) (result *fits.Ima
 	kernel:=GaussianKernel1D(op.Sigma)
 	fmt.Fprintf(c.Log, "%d: Gaussian blur kernel sigma %.2f size %d: %v\n", 
 		        f.ID, op.Sigma, len(kernel), kernel)
-	f.Data=GaussianBlur(f.Data, int(f.Naxisn[0]), op.Sigma)
+	for _, plane:=range planes(f) {
+		GaussianBlur(plane, int(f.Naxisn[0]), op.Sigma)
+	}
+	f.Stats.Clear()
 	return f, nil
 }
 
@@ -419,6 +433,10 @@ func (op *OpUnsharpMask) Apply(f *fits.Image, c *ops.Context) (result *fits.Imag
 	kernel:=GaussianKernel1D(op.Sigma)
 	fmt.Fprintf(c.Log, "%d: Unsharp masking kernel sigma %.2f size %d: %v\n", 
 		        f.ID, op.Sigma, len(kernel), kernel)
-	f.Data=UnsharpMask(f.Data, int(f.Naxisn[0]), op.Sigma, op.Gain, f.Stats.Min(), f.Stats.Max(), absThresh)
+	min, max:=f.Stats.Min(), f.Stats.Max()
+	for _, plane:=range planes(f) {
+		copy(plane, UnsharpMask(plane, int(f.Naxisn[0]), op.Sigma, op.Gain, min, max, absThresh))
+	}
+	f.Stats.Clear()
 	return f, nil
 }
-- 
2.43.0


From 67adc2554db022f144ef83fb949eab1c1a1c1a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:47 +0000
Subject: [PATCH 039/105] fix: midtones map values below the black point to
 zero instead of a negative value

---
 internal/fits/pixelops.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/fits/pixelops.go b/internal/fits/pixelops.go
index 9896fb4..c325dc3 100644
--- a/internal/fits/pixelops.go
+++ b/internal/fits/pixelops.go
@@ -219,7 +219,7 @@ func pfMidtones(data []float32, params interface{}) {
 	for i, d:=range data {
 		value:=d*(mid-1.0) / ((2.0*mid -1.0)*d - mid)
 		if value<clipLow { 
-			value=0 
+			value=clipLow 
 	    } else if value>clipHigh {
 	    	value=1
 	    }
-- 
2.43.0


From 4c6fcb8562ff2167fb9be05b7ce5563ec6842433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:06 +0000
Subject: [PATCH 040/105] fix: background neutralization fades in colors
 between low and high luminance

---
 internal/fits/pixelops.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/fits/pixelops.go b/internal/fits/pixelops.go
index c325dc3..4d6677a 100644
--- a/internal/fits/pixelops.go
+++ b/internal/fits/pixelops.go
@@ -470,7 +470,7 @@ type pf3ChanNeutralizeBackgroundArgs struct {
 // RGB pixel function to adjust CIE HCL chroma by multiplying with 0 for values below low, with 1 above high, and interpolating linearly in between. 
 // Data must be HCL. 2nd parameter must be a pf3ChanNeutralizeBackgroundArgs. Operates in-place. 
 func pf3ChanNeutralizeBackground(hs,cs,ls []float32, params interface{}) {
-	low, high:=params.(pf3ChanNeutralizeBackgroundArgs).Low, params.(pf3ChanNeutralizeBackgroundArgs).Low
+	low, high:=params.(pf3ChanNeutralizeBackgroundArgs).Low, params.(pf3ChanNeutralizeBackgroundArgs).High
 	scaler:=float32(0)
 	if high>low { scaler=1.0/(high-low) }
 	for i, l:=range ls {
-- 
2.43.0


From 9f159812232b891ec98cd624a52106a7c0fe7e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:06 +0000
Subject: [PATCH 041/105] fix: rotated hues stay within [0,360)

---
 internal/fits/pixelops.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/fits/pixelops.go b/internal/fits/pixelops.go
index 4d6677a..0949eba 100644
--- a/internal/fits/pixelops.go
+++ b/internal/fits/pixelops.go
@@ -537,6 +537,8 @@ func pf3ChanRotateColors(hs,ss,ls []float32, params interface{}) {
 		if ( from<=to  && (h>from && h<to)) ||
 		   ((from> to) && (h>from || h<to)) {  // if hue in given range (e.g. greens 100..190)
 			h+=offset                          // rotate by given amount (e.g yellow with -30)
+			for h<0    { h+=360 }              // and keep in [0,360)
+			for h>=360 { h-=360 }
 			hs[i]=h
 		}
 	}
-- 
2.43.0


From d42199bfe0fae4fbffb0a1ad8f02fb53095f445b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:07 +0000
Subject: [PATCH 042/105] fix: luminance unsharp mask updates statistics and
 tolerates zero sigma

---
 internal/ops/hsl/hsl.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/ops/hsl/hsl.go b/internal/ops/hsl/hsl.go
index 22bb3f0..fae0fca 100644
--- a/internal/ops/hsl/hsl.go
+++ b/internal/ops/hsl/hsl.go
@@ -536,7 +536,7 @@ func (op *OpHSLUnsharpMask) UnmarshalJSON(data []byte) error {
 }
 
 func (op *OpHSLUnsharpMask) Apply(f *fits.Image, c *ops.Context) (fOut *fits.Image, err error) {
-	if op.Gain == 0.0 {
+	if op.Gain == 0.0 || op.Sigma <= 0 {
 		return f, nil
 	}
 
@@ -552,6 +552,7 @@ func (op *OpHSLUnsharpMask) Apply(f *fits.Image, c *ops.Context) (fOut *fits.Ima
 	for i := range sharpened {
 		f.Data[2*f.Pixels/3+int32(i)] = sharpened[i]
 	}
+	f.Stats.Clear()
 	return f, nil
 }
 
-- 
2.43.0


From 402c54a80cc82da338bd3603ad289537f79d994a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:08 +0000
Subject: [PATCH 043/105] fix: midtones with a black point below zero keep the
 order of pixel values

---
 internal/fits/pixelops.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/fits/pixelops.go b/internal/fits/pixelops.go
index 0949eba..e260877 100644
--- a/internal/fits/pixelops.go
+++ b/internal/fits/pixelops.go
@@ -213,6 +213,7 @@ type pfMidtonesArgs struct {
 // 2nd parameter must be a pfMidtonesArgs. Operates in-place. 
 func pfMidtones(data []float32, params interface{}) {
 	mid, black:=params.(pfMidtonesArgs).Mid, params.(pfMidtonesArgs).Black
+	if black<0 { black=0 } // below zero, there is nothing to clip
 	clipLow   :=black*(mid-1.0) / ((2.0*mid -1.0)*black - mid)
 	clipHigh  :=float32(1.0)
 	scaler    :=1.0/(clipHigh-clipLow)
-- 
2.43.0


From 4648f65febc8872e9607b3aa8b535a208d0d7bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:31 +0000
Subject: [PATCH 044/105] fix: rotating hues by any angle terminates

---
 internal/fits/pixelops.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/fits/pixelops.go b/internal/fits/pixelops.go
index e260877..61e6912 100644
--- a/internal/fits/pixelops.go
+++ b/internal/fits/pixelops.go
@@ -538,8 +538,9 @@ func pf3ChanRotateColors(hs,ss,ls []float32, params interface{}) {
 		if ( from<=to  && (h>from && h<to)) ||
 		   ((from> to) && (h>from || h<to)) {  // if hue in given range (e.g. greens 100..190)
 			h+=offset                          // rotate by given amount (e.g yellow with -30)
-			for h<0    { h+=360 }              // and keep in [0,360)
-			for h>=360 { h-=360 }
+			h =float32(math.Mod(float64(h), 360)) // and keep in [0,360)
+			if h<0    { h+=360 }
+			if h>=360 { h-=360 }               // tiny negative values round to 360
 			hs[i]=h
 		}
 	}
-- 
2.43.0


From 9ae1cccc4773e8c6fc10c6708498e3d8aa4dbb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:31 +0000
Subject: [PATCH 045/105] fix: midtones leave images without spread unchanged
 instead of turning them into NaN

---
 internal/ops/hsl/hsl.go         | 4 ++++
 internal/ops/stretch/stretch.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/internal/ops/hsl/hsl.go b/internal/ops/hsl/hsl.go
index fae0fca..21f8a3c 100644
--- a/internal/ops/hsl/hsl.go
+++ b/internal/ops/hsl/hsl.go
@@ -406,6 +406,10 @@ func (op *OpHSLMidtones) Apply(f *fits.Image, c *ops.Context) (fOut *fits.Image,
 	absBlack := loc - op.Black*scale
 
 	fmt.Fprintf(c.Log, "loc %.2f%% scale %.2f%% absMid %.2f%% absBlack %.2f%%\n", 100*loc, 100*scale, 100*absMid, 100*absBlack)
+	if absMid <= 0 {
+		fmt.Fprintf(c.Log, "%d: Warning: Image has no scale, skipping midtone correction\n", f.ID)
+		return f, nil
+	}
 	f.ApplyMidtonesToChannel(2, absMid, absBlack)
 	return f, nil
 }
diff --git a/internal/ops/stretch/stretch.go b/internal/ops/stretch/stretch.go
index 852bfcb..ca12afb 100644
--- a/internal/ops/stretch/stretch.go
+++ b/internal/ops/stretch/stretch.go
@@ -201,6 +201,10 @@ func (op *OpMidtones) Apply(f *fits.Image, c *ops.Context) (result *fits.Image,
 	absBlack:=loc - op.Black*scale
 	fmt.Fprintf(c.Log, "%d: loc %.2f%% scale %.2f%% absMid %.2f%% absBlack %.2f%%\n", f.ID, 100*loc, 100*scale, 100*absMid, 100*absBlack)
 
+	if absMid<=0 {
+		fmt.Fprintf(c.Log, "%d: Warning: Image has no scale, skipping midtone correction\n", f.ID)
+		return f, nil
+	}
 	f.ApplyMidtones(absMid, absBlack)
 	return f, nil
 }
-- 
2.43.0


From c7ec01c53423a3f9743373dd3633e2cfb83d81d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:32 +0000
Subject: [PATCH 046/105] fix: binning keeps color channels and rejects images
 smaller than one bin

---
 internal/fits/fits.go          | 13 ++++++++++---
 internal/ops/pre/preprocess.go |  3 +++
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/internal/fits/fits.go b/internal/fits/fits.go
index a20b614..1ce2c93 100644
--- a/internal/fits/fits.go
+++ b/internal/fits/fits.go
@@ -164,8 +164,14 @@ func NewImageBinNxN(src *Image, n int32) *Image {
 	// calculate binned image size
 	binnedPixels:=int32(1)
 	binnedNaxisn:=make([]int32, len(src.Naxisn))
+	planes:=int32(1)
 	for i,originalN:=range(src.Naxisn) {
-		binnedN:=originalN/n
+		binnedN:=originalN
+		if i<2 { 
+			binnedN=originalN/n
+		} else {
+			planes*=originalN // keep e.g. color channels
+		}
 		binnedNaxisn[i]=binnedN
 		binnedPixels*=binnedN
 	}
@@ -176,12 +182,13 @@ func NewImageBinNxN(src *Image, n int32) *Image {
 	// calculate binned image pixel values
 	// FIXME: pretty inefficient?
 	normalizer:=1.0/float32(n*n)
-	for y:=int32(0); y<binnedNaxisn[1]; y++ {
+	for y:=int32(0); y<binnedNaxisn[1]*planes; y++ {
+		srcY:=(y/binnedNaxisn[1])*src.Naxisn[1] + (y%binnedNaxisn[1])*n
 		for x:=int32(0); x<binnedNaxisn[0]; x++ {
 			sum:=float32(0)
 			for yoff:=int32(0); yoff<n; yoff++ {
 				for xoff:=int32(0); xoff<n; xoff++ {
-					origPos:=(y*n+yoff)*src.Naxisn[0] + (x*n+xoff)
+					origPos:=(srcY+yoff)*src.Naxisn[0] + (x*n+xoff)
 					sum+=src.Data[origPos]
 				}
 			}
diff --git a/internal/ops/pre/preprocess.go b/internal/ops/pre/preprocess.go
index 2a2cfbf..9049cba 100644
--- a/internal/ops/pre/preprocess.go
+++ b/internal/ops/pre/preprocess.go
@@ -325,6 +325,9 @@ func (op *OpBin) Apply(f *fits.Image, c *ops.Context) (result *fits.Image, err e
 	if op.BinSize <= 1 {
 		return f, nil
 	}
+	if len(f.Naxisn) < 2 || f.Naxisn[0] < op.BinSize || f.Naxisn[1] < op.BinSize {
+		return nil, fmt.Errorf("%d: Cannot bin image of size %s by %d", f.ID, f.DimensionsToString(), op.BinSize)
+	}
 	f = fits.NewImageBinNxN(f, op.BinSize)
 	fmt.Fprintf(c.Log, "%d: After %xx%d binning, new image size %dx%d\n", f.ID, op.BinSize, op.BinSize, f.Naxisn[0], f.Naxisn[1])
 	return f, nil
-- 
2.43.0


From 99b26f33566d764f2cfbd0c761988ef90e423321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:27 +0000
Subject: [PATCH 047/105] fix: calibrate with the operator's own dark and flat
 frames, not those of another one

---
 internal/ops/pre/preprocess.go | 75 +++++++++++++++++++++-------------
 1 file changed, 46 insertions(+), 29 deletions(-)

diff --git a/internal/ops/pre/preprocess.go b/internal/ops/pre/preprocess.go
index 9049cba..321bd26 100644
--- a/internal/ops/pre/preprocess.go
+++ b/internal/ops/pre/preprocess.go
@@ -31,8 +31,12 @@ type OpCalibrate struct {
 	Dark  string     `json:"dark"`
 	Flat  string     `json:"flat"`
 	mutex sync.Mutex `json:"-"`
+	dark  *fits.Image // dark frame once loaded
+	flat  *fits.Image // flat frame once loaded
 }
 
+var contextMutex sync.Mutex // protects the calibration frames noted in a context
+
 func init() { ops.SetOperatorFactory(func() ops.Operator { return NewOpCalibrateDefaults() }) } // register the operator for JSON decoding
 
 func NewOpCalibrateDefaults() *OpCalibrate { return NewOpCalibrate("", "") }
@@ -60,51 +64,53 @@ func (op *OpCalibrate) UnmarshalJSON(data []byte) error {
 	op.Dark = def.Dark
 	op.Flat = def.Flat
 	op.mutex = sync.Mutex{}
+	op.dark, op.flat = nil, nil
 
 	op.OpUnaryBase.Apply = op.Apply // make method receiver point to op, not def
 	return nil
 }
 
 func (op *OpCalibrate) Apply(f *fits.Image, c *ops.Context) (result *fits.Image, err error) {
-	if err = op.init(c); err != nil {
+	dark, flat, err := op.init(c) // lazy init of dark and flat frames
+	if err != nil {
 		return nil, err
-	} // lazy init of dark and flat frames
+	}
 
-	if c.DarkFrame != nil {
-		if !fits.EqualInt32Slice(f.Naxisn, c.DarkFrame.Naxisn) {
-			if f.Pixels!=c.DarkFrame.Pixels {
+	if dark != nil {
+		if !fits.EqualInt32Slice(f.Naxisn, dark.Naxisn) {
+			if f.Pixels!=dark.Pixels {
 				return nil, fmt.Errorf("%d: Light dimensions %v differ from dark dimensions %v",
-					f.ID, f.Naxisn, c.DarkFrame.Naxisn)
+					f.ID, f.Naxisn, dark.Naxisn)
 			}
 			fmt.Printf("%d: Warning: light dimensions %v differ from dark dimensions %v but same product, ignoring for Seestar",
-					f.ID, f.Naxisn, c.DarkFrame.Naxisn)
+					f.ID, f.Naxisn, dark.Naxisn)
 		}
-		Subtract(f.Data, f.Data, c.DarkFrame.Data)
+		Subtract(f.Data, f.Data, dark.Data)
 		f.Stats.Clear()
 	}
 
-	if c.FlatFrame != nil {
-		if !fits.EqualInt32Slice(f.Naxisn, c.FlatFrame.Naxisn) {
-			if f.Pixels!=c.FlatFrame.Pixels {
+	if flat != nil {
+		if !fits.EqualInt32Slice(f.Naxisn, flat.Naxisn) {
+			if f.Pixels!=flat.Pixels {
 				return nil, fmt.Errorf("%d: Light dimensions %v differ from flat dimensions %v",
-					f.ID, f.Naxisn, c.FlatFrame.Naxisn)
+					f.ID, f.Naxisn, flat.Naxisn)
 			}
 			fmt.Printf("%d: Warning: light dimensions %v differ from flat dimensions %v but same product, ignoring for Seestar",
-					f.ID, f.Naxisn, c.FlatFrame.Naxisn)
+					f.ID, f.Naxisn, flat.Naxisn)
 		}
-		Divide(f.Data, f.Data, c.FlatFrame.Data, c.FlatFrame.Stats.Max())
+		Divide(f.Data, f.Data, flat.Data, flat.Stats.Max())
 		f.Stats.Clear()
 	}
 	return f, nil
 }
 
-// Load dark and flat frames if applicable
-func (op *OpCalibrate) init(c *ops.Context) error {
+// Load dark and flat frames of this operator if applicable
+func (op *OpCalibrate) init(c *ops.Context) (dark, flat *fits.Image, err error) {
 	op.mutex.Lock()
 	defer op.mutex.Unlock()
-	if !((op.Dark != "" && c.DarkFrame == nil) ||
-		(op.Flat != "" && c.FlatFrame == nil)) {
-		return nil
+	if !((op.Dark != "" && op.dark == nil) ||
+		(op.Flat != "" && op.flat == nil)) {
+		return op.dark, op.flat, nil
 	}
 
 	var promises []ops.Promise
@@ -112,10 +118,10 @@ func (op *OpCalibrate) init(c *ops.Context) error {
 		if name != "" {
 			promise, err := ops.NewOpLoad(-(i+1), name).MakePromises(nil, c)
 			if err != nil {
-				return err
+				return nil, nil, err
 			}
 			if len(promise) != 1 {
-				return errors.New("load operator did not create exactly one promise")
+				return nil, nil, errors.New("load operator did not create exactly one promise")
 			}
 			promises = append(promises, promise[0])
 		}
@@ -123,23 +129,34 @@ func (op *OpCalibrate) init(c *ops.Context) error {
 
 	images, err := ops.MaterializeAll(promises, c.MaxThreads, false)
 	if err != nil {
-		return err
+		return nil, nil, err
 	}
 
 	if op.Dark != "" {
-		c.DarkFrame = images[0]
+		dark = images[0]
 		if op.Flat != "" {
-			c.FlatFrame = images[1]
+			flat = images[1]
 		}
 	} else if op.Flat != "" {
-		c.FlatFrame = images[0]
+		flat = images[0]
 	}
 
-	if c.DarkFrame != nil && c.FlatFrame != nil && !fits.EqualInt32Slice(c.DarkFrame.Naxisn, c.FlatFrame.Naxisn) {
-		return fmt.Errorf("dark dimensions %v differ from flat dimensions %v",
-			c.DarkFrame.Naxisn, c.FlatFrame.Naxisn)
+	if dark != nil && flat != nil && !fits.EqualInt32Slice(dark.Naxisn, flat.Naxisn) {
+		return nil, nil, fmt.Errorf("dark dimensions %v differ from flat dimensions %v",
+			dark.Naxisn, flat.Naxisn)
 	}
-	return nil
+	op.dark, op.flat = dark, flat
+
+	// note frames in the context for memory estimates
+	contextMutex.Lock()
+	defer contextMutex.Unlock()
+	if dark != nil {
+		c.DarkFrame = dark
+	}
+	if flat != nil {
+		c.FlatFrame = flat
+	}
+	return dark, flat, nil
 }
 
 type OpBadPixel struct {
-- 
2.43.0


From de50b9c18939bdf8c17c99c35d2a45d81fb5472f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:27 +0000
Subject: [PATCH 048/105] fix: keep the debayer settings of bad pixel removal
 in JSON

---
 internal/ops/pre/preprocess.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/ops/pre/preprocess.go b/internal/ops/pre/preprocess.go
index 321bd26..4151fe7 100644
--- a/internal/ops/pre/preprocess.go
+++ b/internal/ops/pre/preprocess.go
@@ -163,7 +163,7 @@ type OpBadPixel struct {
 	ops.OpUnaryBase
 	SigmaLow  float32    `json:"sigmaLow"`
 	SigmaHigh float32    `json:"sigmaHigh"`
-	Debayer   *OpDebayer `json:"-"`
+	Debayer   *OpDebayer `json:"debayer"`
 }
 
 func init() { ops.SetOperatorFactory(func() ops.Operator { return NewOpBadPixelDefaults() }) } // register the operator for JSON decoding
-- 
2.43.0


From 90e8f12e3cf0517091e2b98ee8ce934c475d50cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:28 +0000
Subject: [PATCH 049/105] fix: replace adjacent bad pixels by their original
 local medians

---
 internal/ops/pre/badpixels.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/ops/pre/badpixels.go b/internal/ops/pre/badpixels.go
index 0ead5f4..5196e85 100644
--- a/internal/ops/pre/badpixels.go
+++ b/internal/ops/pre/badpixels.go
@@ -81,8 +81,12 @@ func MedianFilter(output, data []float32, mask []int32) {
 func MedianFilterSparse(data []float32, indices []int32, mask []int32) {
 	//LogPrintf("applying sparse Median filter to %d indices with mask %v\n", len(indices), mask)
 	buffer := make([]float32, len(mask))
-	for _, i := range indices {
-		data[i] = median.GatherAndMedian(data, int32(i), mask, buffer)
+	medians := make([]float32, len(indices)) // gather all before changing any data
+	for j, i := range indices {
+		medians[j] = median.GatherAndMedian(data, int32(i), mask, buffer)
+	}
+	for j, i := range indices {
+		data[i] = medians[j]
 	}
 }
 
-- 
2.43.0


From a0dd9818a84a0cbc460389e50f62f7ad4ddd8bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:28 +0000
Subject: [PATCH 050/105] fix: refresh statistics after bad pixel removal

---
 internal/ops/pre/preprocess.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/ops/pre/preprocess.go b/internal/ops/pre/preprocess.go
index 4151fe7..00accd0 100644
--- a/internal/ops/pre/preprocess.go
+++ b/internal/ops/pre/preprocess.go
@@ -204,6 +204,7 @@ func (op *OpBadPixel) Apply(f *fits.Image, c *ops.Context) (result *fits.Image,
 		bpm, f.MedianDiffStats = BadPixelMap(f.Data, f.Naxisn[0], op.SigmaLow, op.SigmaHigh)
 		mask := star.CreateMask(f.Naxisn[0], 1.5)
 		MedianFilterSparse(f.Data, bpm, mask)
+		f.Stats.Clear()
 		fmt.Fprintf(c.Log, "%d: Removed %d bad pixels (%.2f%%) with sigma low=%.2f high=%.2f\n",
 			f.ID, len(bpm), 100.0*float32(len(bpm))/float32(f.Pixels), op.SigmaLow, op.SigmaHigh)
 	} else {
@@ -211,6 +212,7 @@ func (op *OpBadPixel) Apply(f *fits.Image, c *ops.Context) (result *fits.Image,
 		if err != nil {
 			return nil, err
 		}
+		f.Stats.Clear()
 		fmt.Fprintf(c.Log, "%d: Removed %d bad bayer pixels (%.2f%%) with sigma low=%.2f high=%.2f\n",
 			f.ID, numRemoved, 100.0*float32(numRemoved)/float32(f.Pixels), op.SigmaLow, op.SigmaHigh)
 	}
-- 
2.43.0


From de558579dd7f3f88da1caf43f6e1197c3fbaf0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:52 +0000
Subject: [PATCH 051/105] fix: correct bad green and blue pixels in the first
 row and column of all filter arrays

---
 internal/ops/pre/badpixels_bayer.go | 29 +++++++++--------------------
 1 file changed, 9 insertions(+), 20 deletions(-)

diff --git a/internal/ops/pre/badpixels_bayer.go b/internal/ops/pre/badpixels_bayer.go
index 10279aa..bc338e2 100644
--- a/internal/ops/pre/badpixels_bayer.go
+++ b/internal/ops/pre/badpixels_bayer.go
@@ -39,7 +39,7 @@ func CosmeticCorrectionBayer(data []float32, width int32, debayer, cfa string, s
 	case "G", "g":
 		return CosmeticCorrectionBayerGreen(median, data, width, xOffset, yOffset, sigmaLow, sigmaHigh), nil
 	case "B", "b":
-		return CosmeticCorrectionBayerRedOrBlue(median, data, width, xOffset+1, yOffset+1, sigmaLow, sigmaHigh), nil
+		return CosmeticCorrectionBayerRedOrBlue(median, data, width, 1-xOffset, 1-yOffset, sigmaLow, sigmaHigh), nil
 	default:
 		return 0, errors.New("Unknown debayering value " + debayer)
 	}
@@ -148,10 +148,8 @@ func MedianFilterBayerGreen(res, data []float32, width, xOffset, yOffset int32)
 	}*/
 
 	// for all RGGB boxes
-	colorOffsetX := int32(0)
-	for y := yOffset; y < height; y += 1 {
-		colorOffsetX = 1 - colorOffsetX
-		for x := xOffset + colorOffsetX; x < width; x += 2 {
+	for y := int32(0); y < height; y += 1 {
+		for x := (1 + xOffset + yOffset + y) & 1; x < width; x += 2 {
 			numGathered := 0
 			// for the local neighborhood
 			for _, nOffsets := range gOffsets {
@@ -245,14 +243,11 @@ func DeltaStatsBayerGreen(median, data []float32, width, xOffset, yOffset int32)
 	// for all rows
 	deltaSum := float32(0)
 	deltaNum := int32(0)
-	colorOffsetX := int32(0)
-	for y := yOffset; y < height; y += 1 {
-		colorOffsetX = 1 - colorOffsetX
-
+	for y := int32(0); y < height; y += 1 {
 		// for all pixels in the row
 		deltaRowSum := float32(0)
 		deltaRowNum := int32(0)
-		for x := xOffset + colorOffsetX; x < width; x += 2 {
+		for x := (1 + xOffset + yOffset + y) & 1; x < width; x += 2 {
 			index := y*width + x
 			delta := data[index] - median[index]
 			deltaRowSum += delta
@@ -267,14 +262,11 @@ func DeltaStatsBayerGreen(median, data []float32, width, xOffset, yOffset int32)
 	// for all rows
 	deltaSum = float32(0)
 	deltaNum = int32(0)
-	colorOffsetX = int32(0)
-	for y := yOffset; y < height; y += 1 {
-		colorOffsetX = 1 - colorOffsetX
-
+	for y := int32(0); y < height; y += 1 {
 		// for all pixels in the row
 		deltaRowSum := float32(0)
 		deltaRowNum := int32(0)
-		for x := xOffset + colorOffsetX; x < width; x += 2 {
+		for x := (1 + xOffset + yOffset + y) & 1; x < width; x += 2 {
 			index := y*width + x
 			delta := data[index] - median[index]
 			deltaSq := (delta - mean) * (delta - mean)
@@ -333,12 +325,9 @@ func ReplaceOutliersBayerGreen(median, data []float32, width, xOffset, yOffset i
 	numRemoved = 0
 
 	// for all rows
-	colorOffsetX := int32(0)
-	for y := yOffset; y < height; y += 1 {
-		colorOffsetX = 1 - colorOffsetX
-
+	for y := int32(0); y < height; y += 1 {
 		// for all pixels in the row
-		for x := xOffset + colorOffsetX; x < width; x += 2 {
+		for x := (1 + xOffset + yOffset + y) & 1; x < width; x += 2 {
 			index := y*width + x
 			delta := data[index] - median[index]
 			if delta < threshLow || delta > threshHigh {
-- 
2.43.0


From a956343375487604cfa1377b4a61b52310d2dea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:52 +0000
Subject: [PATCH 052/105] fix: report images which cannot be debayered instead
 of crashing

---
 internal/ops/pre/preprocess.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/ops/pre/preprocess.go b/internal/ops/pre/preprocess.go
index 00accd0..94f4e33 100644
--- a/internal/ops/pre/preprocess.go
+++ b/internal/ops/pre/preprocess.go
@@ -256,10 +256,17 @@ func (op *OpDebayer) Apply(f *fits.Image, c *ops.Context) (result *fits.Image, e
 	if op.Channel == "" || op.ColorFilterArray == "" {
 		return f, nil
 	}
-	f.Data, f.Naxisn[0], err = DebayerBilinear(f.Data, f.Naxisn[0], op.Channel, op.ColorFilterArray)
+	if len(f.Naxisn) < 2 || f.Naxisn[0]*f.Naxisn[1] != f.Pixels {
+		return nil, fmt.Errorf("%d: Cannot debayer image of size %s", f.ID, f.DimensionsToString())
+	}
+	data, width, err := DebayerBilinear(f.Data, f.Naxisn[0], op.Channel, op.ColorFilterArray)
 	if err != nil {
 		return nil, err
 	}
+	if len(data) == 0 {
+		return nil, fmt.Errorf("%d: Image of size %s is too small to debayer", f.ID, f.DimensionsToString())
+	}
+	f.Data, f.Naxisn[0] = data, width
 	f.Pixels = int32(len(f.Data))
 	f.Naxisn[1] = f.Pixels / f.Naxisn[0]
 	fmt.Fprintf(c.Log, "%d: Debayered channel %s from cfa %s, new size %dx%d\n", f.ID, op.Channel, op.ColorFilterArray, f.Naxisn[0], f.Naxisn[1])
-- 
2.43.0


From 8728412583dbd5e63e9f9d6de6ccbb2b2fc128a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:53 +0000
Subject: [PATCH 053/105] fix: give debayered images statistics of their own
 pixels

---
 internal/ops/pre/preprocess.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/ops/pre/preprocess.go b/internal/ops/pre/preprocess.go
index 94f4e33..ea1bbb5 100644
--- a/internal/ops/pre/preprocess.go
+++ b/internal/ops/pre/preprocess.go
@@ -24,6 +24,7 @@ import (
 	"github.com/mlnoga/nightlight/internal/fits"
 	"github.com/mlnoga/nightlight/internal/ops"
 	"github.com/mlnoga/nightlight/internal/star"
+	"github.com/mlnoga/nightlight/internal/stats"
 )
 
 type OpCalibrate struct {
@@ -269,6 +270,7 @@ func (op *OpDebayer) Apply(f *fits.Image, c *ops.Context) (result *fits.Image, e
 	f.Data, f.Naxisn[0] = data, width
 	f.Pixels = int32(len(f.Data))
 	f.Naxisn[1] = f.Pixels / f.Naxisn[0]
+	f.Stats = stats.NewStats(f.Data, f.Naxisn[0])
 	fmt.Fprintf(c.Log, "%d: Debayered channel %s from cfa %s, new size %dx%d\n", f.ID, op.Channel, op.ColorFilterArray, f.Naxisn[0], f.Naxisn[1])
 
 	return f, nil
-- 
2.43.0


From c52dbbbdc23777b83c19a5f8e2a4d10ad9715d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:53 +0000
Subject: [PATCH 054/105] fix: skip vertical debanding without a window like
 horizontal

---
 internal/ops/pre/banding.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/ops/pre/banding.go b/internal/ops/pre/banding.go
index c2a3eae..0acd8bf 100644
--- a/internal/ops/pre/banding.go
+++ b/internal/ops/pre/banding.go
@@ -195,7 +195,7 @@ func (op *OpDebandVert) UnmarshalJSON(data []byte) error {
 }
 
 func (op *OpDebandVert) Apply(f *fits.Image, c *ops.Context) (result *fits.Image, err error) {
-	if op.Percentile<=0 || op.Percentile>=100 { return f, nil }
+	if op.Percentile<=0 || op.Percentile>=100 || op.Window<=0 { return f, nil }
 
 	// obtain dimensions
 	numCols, numRows   :=f.Naxisn[0], f.Naxisn[1]
-- 
2.43.0


From 915829cab389207e09616f142bd296481e92f3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:54 +0000
Subject: [PATCH 055/105] fix: do not crash debanding rows or columns which are
 above the threshold entirely

---
 internal/ops/pre/banding.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/ops/pre/banding.go b/internal/ops/pre/banding.go
index 0acd8bf..f51cf06 100644
--- a/internal/ops/pre/banding.go
+++ b/internal/ops/pre/banding.go
@@ -88,6 +88,7 @@ func (op *OpDebandHoriz) Apply(f *fits.Image, c *ops.Context) (result *fits.Imag
 				numSamples++
 			}
 		}
+		if numSamples==0 { numSamples=copy(rowBuffer, ds) } // entire row is above the threshold
 		k:=int(float32(numSamples)*op.Percentile*0.01)
 		rowPercentiles[row]=qsort.QSelectFloat32(rowBuffer[:numSamples],int(k))
 	}
@@ -224,6 +225,10 @@ func (op *OpDebandVert) Apply(f *fits.Image, c *ops.Context) (result *fits.Image
 				numSamples++
 			}
 		}
+		if numSamples==0 { // entire column is above the threshold
+			for row:=int32(0); row<numRows; row++ { colBuffer[row]=f.Data[row*numCols + col] }
+			numSamples=int(numRows)
+		}
 		k:=int(float32(numSamples)*op.Percentile*0.01)
 		colPercentiles[col]=qsort.QSelectFloat32(colBuffer[:numSamples],int(k))
 	}
-- 
2.43.0


From 34f46ee796075b0b312aa3f7f543fe7caed63d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:54 +0000
Subject: [PATCH 056/105] fix: do not create NaN, infinite or inverted pixels
 when debanding around zero

---
 internal/ops/pre/banding.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/internal/ops/pre/banding.go b/internal/ops/pre/banding.go
index f51cf06..46fe5a0 100644
--- a/internal/ops/pre/banding.go
+++ b/internal/ops/pre/banding.go
@@ -116,7 +116,7 @@ func (op *OpDebandHoriz) Apply(f *fits.Image, c *ops.Context) (result *fits.Imag
 		medianOfRowPercentiles:=qsort.QSelectMedianFloat32(rowPercentilesClone)
 
 		// calculate local correction factor
-		factor:=medianOfRowPercentiles / rowPercentiles[row]
+		factor:=correctionFactor(medianOfRowPercentiles, rowPercentiles[row])
 		if factor<lowest { lowest = factor }
 		if factor>highest { highest = factor }
 
@@ -132,6 +132,14 @@ func (op *OpDebandHoriz) Apply(f *fits.Image, c *ops.Context) (result *fits.Imag
 	return f, nil
 }
 
+// Calculates the factor which brings a percentile to the median. Returns one
+// if there is no such positive factor, as the signs differ or a value is zero
+func correctionFactor(median, percentile float32) float32 {
+	factor:=median / percentile
+	if !(factor>0) || factor>math.MaxFloat32 { return 1 }
+	return factor
+}
+
 func fixWindowEdge(window []float32, missing int32) {
   // calculate medians of the left and right halves of the window
   left:=make([]float32, len(window)/2)
@@ -259,7 +267,7 @@ func (op *OpDebandVert) Apply(f *fits.Image, c *ops.Context) (result *fits.Image
 		medianOfColPercentiles:=qsort.QSelectMedianFloat32(colPercentilesClone)
 
 		// calculate local correction factor
-		factor:=medianOfColPercentiles / colPercentiles[col]
+		factor:=correctionFactor(medianOfColPercentiles, colPercentiles[col])
 		if factor<lowest { lowest = factor }
 		if factor>highest { highest = factor }
 
-- 
2.43.0


From 4c9f742964421503389ebe1527d2aac8c329dac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:31 +0000
Subject: [PATCH 057/105] fix: do not crash extracting the background of cells
 without spread

---
 internal/ops/pre/background.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/ops/pre/background.go b/internal/ops/pre/background.go
index 8d9a671..3783d8c 100644
--- a/internal/ops/pre/background.go
+++ b/internal/ops/pre/background.go
@@ -480,11 +480,14 @@ func FitCell(src []float32, width int32, sigma float32, xStart, xEnd, yStart, yE
 	// Calculate trimmed median without upward outliers
 	numSamples := 0
 	for _, v := range medBuffer {
-		if v < upperBound {
+		if v <= upperBound { // at least half of the samples unless sigma is negative
 			medBuffer[numSamples] = v
 			numSamples++
 		}
 	}
+	if numSamples == 0 {
+		return median
+	}
 	medBuffer = medBuffer[:numSamples]
 	trimmedMedian := qsort.QSelectMedianFloat32(medBuffer)
 	return trimmedMedian
-- 
2.43.0


From 4deacac1f56677b88df8191063175b0e94da8e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:31 +0000
Subject: [PATCH 058/105] fix: extract the background with a single grid cell
 per direction

---
 internal/ops/pre/background.go | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/internal/ops/pre/background.go b/internal/ops/pre/background.go
index 3783d8c..350b1e4 100644
--- a/internal/ops/pre/background.go
+++ b/internal/ops/pre/background.go
@@ -71,6 +71,12 @@ func NewBackground(src []float32, width int32, gridSpacing int32, sigma float32,
 
 	gridCellsX := (width + gridSpacing/2) / gridSpacing
 	gridCellsY := (height + gridSpacing/2) / gridSpacing
+	if gridCellsX < 1 { // grid is larger than the image
+		gridCellsX = 1
+	}
+	if gridCellsY < 1 {
+		gridCellsY = 1
+	}
 	gridCells := gridCellsX * gridCellsY
 	gridSpacingX := float32(width) / float32(gridCellsX)
 	gridSpacingY := float32(height) / float32(gridCellsY)
@@ -364,10 +370,17 @@ func (b Background) Render() (dest []float32) {
 			}
 			xr, yr := srcX-float32(xl), srcY-float32(yl)
 
+			if b.GridCellsX == 1 { // constant in this direction
+				xl, xh = 0, 0
+			}
+			if b.GridCellsY == 1 {
+				yl, yh = 0, 0
+			}
+
 			xlyl := xl + yl*b.GridCellsX
-			xhyl := xlyl + 1            // xh+yl*origWidth
-			xlyh := xlyl + b.GridCellsX // xl+yh*origWidth
-			xhyh := xhyl + b.GridCellsX // xh+yh*origWidth
+			xhyl := xh + yl*b.GridCellsX
+			xlyh := xl + yh*b.GridCellsX
+			xhyh := xh + yh*b.GridCellsX
 
 			vyl := b.Cells[xlyl]*(1-xr) + b.Cells[xhyl]*xr
 			vyh := b.Cells[xlyh]*(1-xr) + b.Cells[xhyh]*xr
@@ -443,10 +456,17 @@ func (b Background) Subtract(dest []float32) error {
 			}
 			xr, yr := srcX-float32(xl), srcY-float32(yl)
 
+			if b.GridCellsX == 1 { // constant in this direction
+				xl, xh = 0, 0
+			}
+			if b.GridCellsY == 1 {
+				yl, yh = 0, 0
+			}
+
 			xlyl := xl + yl*b.GridCellsX
-			xhyl := xlyl + 1            // xh+yl*origWidth
-			xlyh := xlyl + b.GridCellsX // xl+yh*origWidth
-			xhyh := xhyl + b.GridCellsX // xh+yh*origWidth
+			xhyl := xh + yl*b.GridCellsX
+			xlyh := xl + yh*b.GridCellsX
+			xhyh := xh + yh*b.GridCellsX
 
 			vyl := b.Cells[xlyl]*(1-xr) + b.Cells[xhyl]*xr
 			vyh := b.Cells[xlyh]*(1-xr) + b.Cells[xhyh]*xr
-- 
2.43.0


From eeaee6fc6eeedff24be1caf3b7e086c3282dc9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:31 +0000
Subject: [PATCH 059/105] fix: interpolate background cells which are masked by
 stars entirely

---
 internal/ops/pre/background.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/internal/ops/pre/background.go b/internal/ops/pre/background.go
index 350b1e4..1c674ef 100644
--- a/internal/ops/pre/background.go
+++ b/internal/ops/pre/background.go
@@ -92,6 +92,7 @@ func NewBackground(src []float32, width int32, gridSpacing int32, sigma float32,
 	b.binStarsIntoCells(stars)
 
 	b.init(src, sigma)
+	b.fillMissing()
 	//LogPrintf("Sigma %f\n", sigma)
 	//LogPrintln(b.CellsString())
 
@@ -197,13 +198,29 @@ func (b *Background) clip(n int32, logWriter io.Writer) {
 	b.OutlierCells = ignoredCells
 
 	// Then replace cells with interpolations
-	for neighbors := 8; neighbors >= 0; neighbors-- {
+	b.fillMissing()
+}
+
+// Replaces missing cells with interpolations of their neighbors. If all are missing, sets them to zero
+func (b *Background) fillMissing() {
+	missing := int32(0)
+	for _, cell := range b.Cells {
+		if math.IsNaN(float64(cell)) {
+			missing++
+		}
+	}
+	if missing == b.GridCells {
+		for i := range b.Cells {
+			b.Cells[i] = 0
+		}
+	}
+
+	for neighbors := 8; neighbors >= 1; neighbors-- {
 		numChanged := 1
 		for numChanged > 0 {
 			numChanged = interpolate(b.Cells, b.GridCellsX, b.GridCellsY, neighbors)
 		}
 	}
-	buffer = nil
 }
 
 func (b *Background) smoothe() {
@@ -484,6 +501,9 @@ func (b Background) Subtract(dest []float32) error {
 func FitCell(src []float32, width int32, sigma float32, xStart, xEnd, yStart, yEnd int32, stars []star.Star, hfrFactor float32, medBuffer, madBuffer []float32) float32 {
 	// Gather grid cell contents without known stars
 	medBuffer = gatherWithoutStars(src, width, xStart, xEnd, yStart, yEnd, stars, hfrFactor, medBuffer)
+	if len(medBuffer) == 0 { // entire cell is masked
+		return float32(math.NaN())
+	}
 
 	// Approximate the local background histogram peak location via median. Reorders the buffer
 	median := qsort.QSelectMedianFloat32(medBuffer)
-- 
2.43.0


From 451c0e5713f23623e3cb7cab4856013b35c57580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:32 +0000
Subject: [PATCH 060/105] fix: do not hang clipping all cells of a uniform
 background

---
 internal/ops/pre/background.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/internal/ops/pre/background.go b/internal/ops/pre/background.go
index 1c674ef..e49c371 100644
--- a/internal/ops/pre/background.go
+++ b/internal/ops/pre/background.go
@@ -185,6 +185,17 @@ func (b *Background) clip(n int32, logWriter io.Writer) {
 	threshold := qsort.QSelectFloat32(buffer, len(buffer)-int(n)+1)
 	buffer = nil
 
+	// Do not clip everything, e.g. if all cells have the same value
+	remaining := false
+	for _, cell := range b.Cells {
+		if cell < threshold {
+			remaining = true
+		}
+	}
+	if !remaining {
+		return
+	}
+
 	ignoredCells := int32(0)
 	for i, cell := range b.Cells {
 		if cell >= threshold {
-- 
2.43.0


From 7ade05802b51e44b52c5cfb7305dd4311599e922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:32 +0000
Subject: [PATCH 061/105] fix: mask stars in all background cells they cover

---
 internal/ops/pre/background.go | 45 ++++++++++++++--------------------
 1 file changed, 18 insertions(+), 27 deletions(-)

diff --git a/internal/ops/pre/background.go b/internal/ops/pre/background.go
index e49c371..f5b00c3 100644
--- a/internal/ops/pre/background.go
+++ b/internal/ops/pre/background.go
@@ -116,39 +116,30 @@ func (b *Background) binStarsIntoCells(stars []star.Star) {
 	cs := b.CellStars
 	for _, s := range stars {
 		sx, sy, hfr := s.X, s.Y, s.HFR*b.HFRFactor
-		// Trace 3x3 grid centered around the star position
-		for yOff := -1; yOff < 2; yOff++ {
-			for xOff := -1; xOff < 2; xOff++ {
-				x := sx + float32(xOff)*hfr
-				y := sy + float32(yOff)*hfr
-
-				cellX := int32(x / b.GridSpacingX)
-				if cellX < 0 {
-					cellX = 0
-				}
-				if cellX >= b.GridCellsX {
-					cellX = b.GridCellsX - 1
-				}
-
-				cellY := int32(y / b.GridSpacingY)
-				if cellY < 0 {
-					cellY = 0
-				}
-				if cellY >= b.GridCellsY {
-					cellY = b.GridCellsY - 1
-				}
-
+		// All cells the masked square around the star touches, cell borders are rounded to whole pixels
+		xFirst, xLast := cellRange(sx-hfr-1, sx+hfr+1, b.GridSpacingX, b.GridCellsX)
+		yFirst, yLast := cellRange(sy-hfr-1, sy+hfr+1, b.GridSpacingY, b.GridCellsY)
+		for cellY := yFirst; cellY <= yLast; cellY++ {
+			for cellX := xFirst; cellX <= xLast; cellX++ {
 				cellOffset := cellY*b.GridCellsX + cellX
-				c := cs[cellOffset]
-				l := len(c)
-				if l == 0 || c[l-1] != s {
-					cs[cellOffset] = append(c, s)
-				}
+				cs[cellOffset] = append(cs[cellOffset], s)
 			}
 		}
 	}
 }
 
+// Returns the first and last grid cell which the given range of pixel positions touches
+func cellRange(from, to, spacing float32, cells int32) (first, last int32) {
+	first, last = 0, cells-1
+	if c := from / spacing; c > 0 {
+		first = int32(c)
+	}
+	if c := to / spacing; c < float32(last) {
+		last = int32(c)
+	}
+	return first, last
+}
+
 // Initialize background by approximating each grid cell with a linear gradient
 func (b *Background) init(src []float32, sigma float32) {
 	bufSize := int32(b.GridSpacingX+1.5) * int32(b.GridSpacingY+1.5)
-- 
2.43.0


From 84d7be5eb4553057ea97e1f9c8456ba0bca9a924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:33 +0000
Subject: [PATCH 062/105] fix: save the extracted background when a file
 pattern is given

---
 internal/ops/pre/preprocess.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/ops/pre/preprocess.go b/internal/ops/pre/preprocess.go
index ea1bbb5..c4d957c 100644
--- a/internal/ops/pre/preprocess.go
+++ b/internal/ops/pre/preprocess.go
@@ -417,11 +417,15 @@ func (op *OpBackExtract) Apply(f *fits.Image, c *ops.Context) (result *fits.Imag
 	} else {
 		bgData := bg.Render()
 		bgFits := fits.NewImageFromNaxisn(f.Naxisn, bgData)
+		bgFits.ID = f.ID
 		promise := func() (f *fits.Image, err error) { return bgFits, nil }
-		_, err := op.Save.MakePromises([]ops.Promise{promise}, c)
+		promises, err := op.Save.MakePromises([]ops.Promise{promise}, c)
 		if err != nil {
 			return nil, err
 		}
+		if _, err = promises[0](); err != nil {
+			return nil, err
+		}
 		Subtract(f.Data, f.Data, bgData)
 		bgFits.Data, bgData = nil, nil
 	}
-- 
2.43.0


From dbdf2d60e26b810be2861fc8d904468777ac1ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:01 +0000
Subject: [PATCH 063/105] fix: no crash aligning to a reference without any
 triangles

---
 internal/star/align.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/star/align.go b/internal/star/align.go
index 8b12768..5b7930b 100644
--- a/internal/star/align.go
+++ b/internal/star/align.go
@@ -132,6 +132,7 @@ func generateTriangles(stars []Star, indices []int, scaleFactor float32) []Trian
 // Finds the closest matches between the given triangles and the reference triangles
 func (a *Aligner) closestTriangleMatches(triangles []Triangle) (matches []Match) {
 	kdt:=a.RefTri3DT
+	if len(kdt)==0 { return nil } // reference has too few stars to build triangles from
 	matches=make([]Match, len(triangles))
 
 	for i, tri := range triangles {
-- 
2.43.0


From ffcd13a5a29ab6550e59988a832cd82789e4396d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:02 +0000
Subject: [PATCH 064/105] fix: transformation from points with a side parallel
 to the x axis

---
 internal/star/coord.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/internal/star/coord.go b/internal/star/coord.go
index 9c69bc2..eeb6c99 100644
--- a/internal/star/coord.go
+++ b/internal/star/coord.go
@@ -116,21 +116,23 @@ func IdentityTransform2D() Transform2D {
 // system, and corresponding reference points in second coordinate system.
 // p1, p2, p3 are in the first system. p1p, p2p, p3p are in the second. 
 func NewTransform2D(p1, p2, p3, p1p, p2p, p3p Point2D) (Transform2D, error) {
+	det:=(p2.X-p1.X)*(p3.Y-p1.Y) - (p3.X-p1.X)*(p2.Y-p1.Y)
+
 	a:=( (p3p.X-p1p.X)*(p2.Y-p1.Y) - (p2p.X-p1p.X)*(p3.Y-p1.Y) ) /
 	   ( (p2 .Y-p1 .Y)*(p3.X-p1.X) - (p2 .X-p1 .X)*(p3.Y-p1.Y) )
 
-	b:=( (p2p.X-p1p.X) - a*(p2.X-p1.X) ) / (p2.Y-p1.Y)
+	b:=( (p3p.X-p1p.X)*(p2.X-p1.X) - (p2p.X-p1p.X)*(p3.X-p1.X) ) / det
 
 	c:=p1p.X - a*p1.X - b*p1.Y
 
 	d:=( (p3p.Y-p1p.Y)*(p2.Y-p1.Y) - (p2p.Y-p1p.Y)*(p3.Y-p1.Y) ) /
 	   ( (p2 .Y-p1 .Y)*(p3.X-p1.X) - (p2 .X-p1 .X)*(p3.Y-p1.Y) )
 
-	e:=( (p2p.Y-p1p.Y) - d*(p2.X-p1.X) ) / (p2.Y-p1.Y)
+	e:=( (p3p.Y-p1p.Y)*(p2.X-p1.X) - (p2p.Y-p1p.Y)*(p3.X-p1.X) ) / det
 
 	f:=p1p.Y - d*p1.X - e*p1.Y   
 
-	if math.IsInf(float64(a),0) || math.IsInf(float64(b),0) || math.IsInf(float64(d),0) || math.IsInf(float64(e),0) {
+	if det==0 || math.IsNaN(float64(det)) || math.IsInf(float64(a),0) || math.IsInf(float64(b),0) || math.IsInf(float64(d),0) || math.IsInf(float64(e),0) {
 		return Transform2D{}, errors.New("divide by zero")
 	} 
 	return Transform2D{a,b,c,d,e,f}, nil
-- 
2.43.0


From 6a13c4700aeac81d3a14523829fc076025b60a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:03 +0000
Subject: [PATCH 065/105] fix: inverting a NaN transformation is an error

---
 internal/star/coord.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/star/coord.go b/internal/star/coord.go
index eeb6c99..3f62de5 100644
--- a/internal/star/coord.go
+++ b/internal/star/coord.go
@@ -159,7 +159,7 @@ func (t *Transform2D) ApplySlice(ps []Point2D) (pPs []Point2D) {
 
 // Invert a given 2D transformation. Returns error in the case of divid
 func (t* Transform2D) Invert() (inv Transform2D, err error) {
-	if epsilon:=t.B*t.D-t.A*t.E; epsilon<1e-8 && -epsilon<1e-8 {
+	if epsilon:=t.B*t.D-t.A*t.E; !(epsilon>=1e-8 || -epsilon>=1e-8) {
 		msg:=fmt.Sprintf("Matrix has no inverse, epsilon=%g", epsilon)
 		return Transform2D{}, errors.New(msg)
 	}
-- 
2.43.0


From ab5c45d00fa0729ff8a0f7967d7e971dc6afd22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:03 +0000
Subject: [PATCH 066/105] fix: aligning with reference location fill value but
 no histogram reference is an error

---
 internal/ops/post/postprocess.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/ops/post/postprocess.go b/internal/ops/post/postprocess.go
index a31d57c..5cedd87 100644
--- a/internal/ops/post/postprocess.go
+++ b/internal/ops/post/postprocess.go
@@ -167,6 +167,9 @@ func (op *OpAlign) Apply(f *fits.Image, c *ops.Context) (result *fits.Image, err
 		case OOBModeNaN:
 			outOfBounds = float32(math.NaN())
 		case OOBModeRefLocation:
+			if c.MatchHisto == nil {
+				return nil, errors.New("missing histogram reference for out of bounds value")
+			}
 			outOfBounds = c.MatchHisto.Location()
 		case OOBModeOwnLocation:
 			outOfBounds = f.Stats.Location()
-- 
2.43.0


From 028fd2e2620ad683440547b35737bd68b1b3867a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:28 +0000
Subject: [PATCH 067/105] fix: location matching of frames whose location is
 zero or of opposite sign is an error instead of infinite or inverted pixels

---
 internal/fits/pixelops.go        | 1 +
 internal/ops/post/postprocess.go | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/internal/fits/pixelops.go b/internal/fits/pixelops.go
index 61e6912..de5b130 100644
--- a/internal/fits/pixelops.go
+++ b/internal/fits/pixelops.go
@@ -590,6 +590,7 @@ func (f* Image) SCNR(factor float32) {
 // Adjust image data to match the histogram peak of refStats.
 // Assumes f.Stats are current; and updates them afterwards.
 func (f *Image) MatchLocation(refLocation float32) {
+	if refLocation==f.Stats.Location() { return } // also covers both zero
 	multiplier:=refLocation / f.Stats.Location()
 	data:=f.Data
 	for i, d:=range data {
diff --git a/internal/ops/post/postprocess.go b/internal/ops/post/postprocess.go
index 5cedd87..622ae68 100644
--- a/internal/ops/post/postprocess.go
+++ b/internal/ops/post/postprocess.go
@@ -83,6 +83,10 @@ func (op *OpMatchHistogram) Apply(f *fits.Image, c *ops.Context) (result *fits.I
 	}
 	switch op.Mode {
 	case HNMLocation:
+		loc, refLoc := f.Stats.Location(), c.MatchHisto.Location()
+		if factor := float64(refLoc) / float64(loc); loc != refLoc && !(factor > 0 && factor <= math.MaxFloat32) {
+			return nil, fmt.Errorf("%d: cannot match location %g to reference location %g with a factor", f.ID, loc, refLoc)
+		}
 		f.MatchLocation(c.MatchHisto.Location())
 	case HNMLocScale:
 		f.MatchHistogram(c.MatchHisto)
-- 
2.43.0


From e2f3c29d8f7f06007defb3808da4a17da8706663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:28 +0000
Subject: [PATCH 068/105] fix: histogram matching of frames with zero scale
 gives finite pixels

---
 internal/fits/pixelops.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/fits/pixelops.go b/internal/fits/pixelops.go
index de5b130..83d01c4 100644
--- a/internal/fits/pixelops.go
+++ b/internal/fits/pixelops.go
@@ -604,7 +604,8 @@ func (f *Image) MatchLocation(refLocation float32) {
 // Adjust image data to match the histogram shape of refStats.
 // Assumes f.Stats are current; and updates them afterwards.
 func (f *Image) MatchHistogram(refStats *stats.Stats) {
-	multiplier:=refStats.Scale()    / f.Stats.Scale()
+	multiplier:=float32(1) // a frame with zero scale can only match the location
+	if f.Stats.Scale()!=0 { multiplier=refStats.Scale() / f.Stats.Scale() }
 	offset    :=refStats.Location() - f.Stats.Location()*multiplier
 	data:=f.Data
 	for i, d:=range data {
-- 
2.43.0


From d5502255be4f2e97b10046334115dd632093c5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:29 +0000
Subject: [PATCH 069/105] fix: automatic histogram matching mode is not a
 silent no-op

---
 internal/ops/post/postprocess.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/ops/post/postprocess.go b/internal/ops/post/postprocess.go
index 622ae68..52dc7f3 100644
--- a/internal/ops/post/postprocess.go
+++ b/internal/ops/post/postprocess.go
@@ -88,7 +88,7 @@ func (op *OpMatchHistogram) Apply(f *fits.Image, c *ops.Context) (result *fits.I
 			return nil, fmt.Errorf("%d: cannot match location %g to reference location %g with a factor", f.ID, loc, refLoc)
 		}
 		f.MatchLocation(c.MatchHisto.Location())
-	case HNMLocScale:
+	case HNMLocScale, HNMAuto:
 		f.MatchHistogram(c.MatchHisto)
 	case HNMLocBlack:
 		f.ShiftBlackToMove(f.Stats.Location(), c.MatchHisto.Location())
-- 
2.43.0


From 89f908c48d6555919f1c1f4ef9c398ab3cc6edd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:29 +0000
Subject: [PATCH 070/105] fix: black point matching of saturated frames and
 unknown matching modes are errors

---
 internal/ops/post/postprocess.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/ops/post/postprocess.go b/internal/ops/post/postprocess.go
index 52dc7f3..6df556e 100644
--- a/internal/ops/post/postprocess.go
+++ b/internal/ops/post/postprocess.go
@@ -91,7 +91,12 @@ func (op *OpMatchHistogram) Apply(f *fits.Image, c *ops.Context) (result *fits.I
 	case HNMLocScale, HNMAuto:
 		f.MatchHistogram(c.MatchHisto)
 	case HNMLocBlack:
+		if f.Stats.Location() == 1 || c.MatchHisto.Location() == 1 {
+			return nil, fmt.Errorf("%d: cannot match location of a saturated frame by shifting the black point", f.ID)
+		}
 		f.ShiftBlackToMove(f.Stats.Location(), c.MatchHisto.Location())
+	default:
+		return nil, fmt.Errorf("%d: unknown histogram matching mode %d", f.ID, op.Mode)
 	}
 	fmt.Fprintf(c.Log, "%d: %s after matching reference histogram %v\n", f.ID, f.Stats, c.MatchHisto)
 	return f, nil
-- 
2.43.0


From 5315eba673650287e3c0bfcc866445647f6de4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:03 +0000
Subject: [PATCH 071/105] fix: collinear points do not define a transformation

---
 internal/star/coord.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/star/coord.go b/internal/star/coord.go
index 3f62de5..bd96c2e 100644
--- a/internal/star/coord.go
+++ b/internal/star/coord.go
@@ -116,7 +116,11 @@ func IdentityTransform2D() Transform2D {
 // system, and corresponding reference points in second coordinate system.
 // p1, p2, p3 are in the first system. p1p, p2p, p3p are in the second. 
 func NewTransform2D(p1, p2, p3, p1p, p2p, p3p Point2D) (Transform2D, error) {
-	det:=(p2.X-p1.X)*(p3.Y-p1.Y) - (p3.X-p1.X)*(p2.Y-p1.Y)
+	det1, det2:=float64(p2.X-p1.X)*float64(p3.Y-p1.Y), float64(p3.X-p1.X)*float64(p2.Y-p1.Y)
+	if !(math.Abs(det1-det2)>1e-5*(math.Abs(det1)+math.Abs(det2))) { // also covers NaN
+		return Transform2D{}, errors.New("points are collinear")
+	}
+	det:=float32(det1-det2)
 
 	a:=( (p3p.X-p1p.X)*(p2.Y-p1.Y) - (p2p.X-p1p.X)*(p3.Y-p1.Y) ) /
 	   ( (p2 .Y-p1 .Y)*(p3.X-p1.X) - (p2 .X-p1 .X)*(p3.Y-p1.Y) )
@@ -132,7 +136,7 @@ func NewTransform2D(p1, p2, p3, p1p, p2p, p3p Point2D) (Transform2D, error) {
 
 	f:=p1p.Y - d*p1.X - e*p1.Y   
 
-	if det==0 || math.IsNaN(float64(det)) || math.IsInf(float64(a),0) || math.IsInf(float64(b),0) || math.IsInf(float64(d),0) || math.IsInf(float64(e),0) {
+	if math.IsInf(float64(a),0) || math.IsInf(float64(b),0) || math.IsInf(float64(d),0) || math.IsInf(float64(e),0) {
 		return Transform2D{}, errors.New("divide by zero")
 	} 
 	return Transform2D{a,b,c,d,e,f}, nil
-- 
2.43.0


From 557535ed47d7569b1467c9413f17df2fb475ee42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:55 +0000
Subject: [PATCH 072/105] fix: star centroids and half-flux radii do not wrap
 around image borders, follow negative shifts and ignore NaN pixels

---
 internal/star/findstars.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/internal/star/findstars.go b/internal/star/findstars.go
index 2ccc4a8..8d60d60 100644
--- a/internal/star/findstars.go
+++ b/internal/star/findstars.go
@@ -275,6 +275,7 @@ func shiftToCenterOfMass(stars []Star, data []float32, width int32, threshold fl
 	// for all stars
 	sumOfShifts=float32(0)
 	for i,s:=range stars {
+		height:=int32(len(data))/width
 
 		// until the shifts are below 0.01 pixel (i.e. 0.0001 squared error), or max rounds reached
 		shiftSquared:=float32(math.MaxFloat32)
@@ -282,13 +283,14 @@ func shiftToCenterOfMass(stars []Star, data []float32, width int32, threshold fl
 			// calculate star mass and first moments from current x,y
 			xMoment, yMoment:=float32(0), float32(0)
 			mass:=float32(0)
+			xC, yC:=s.Index%width, s.Index/width
 			for y:=-radius; y<=radius; y++ {
 				for x:=-radius; x<=radius; x++ {
 					index:=s.Index+y*int32(width)+x
 					value:=float32(0)
-					if index>=0 && int(index)<len(data) {
+					if xC+x>=0 && xC+x<width && yC+y>=0 && yC+y<height { // do not wrap around into adjacent lines
 						value=data[index]-threshold
-						if value<0 { value=0 }
+						if !(value>=0) { value=0 } // also covers NaN
 					}
 					xMoment+=float32(x)*value
 					yMoment+=float32(y)*value
@@ -308,7 +310,7 @@ func shiftToCenterOfMass(stars []Star, data []float32, width int32, threshold fl
 			preciseDeltaX:=newX-s.X
 			preciseDeltaY:=newY-s.Y
 			shiftSquared  =preciseDeltaX*preciseDeltaX + preciseDeltaY*preciseDeltaY
-			index:=s.Index + width*int32(deltaY+0.5)+int32(deltaX+0.5)
+			index:=s.Index + width*int32(math.Floor(float64(deltaY+0.5)))+int32(math.Floor(float64(deltaX+0.5)))
 			value:=float32(0)
 			if index>=0 && int(index)<len(data) {
 				value=float32(data[index])
@@ -329,6 +331,8 @@ func calcAndFilterHalfFluxRadius(stars []Star, data []float32, width int32, radi
 	avgHFR=float32(0)
 
 	for _,s:=range stars {
+		xC, yC, height:=s.Index%width, s.Index/width, int32(len(data))/width
+
 		// calculate mass, moment and HFR
 		moment, mass, pixels:=float32(0), float32(0), int32(0)
 		rad:=int32(math.Ceil(float64(radius)))
@@ -341,7 +345,7 @@ func calcAndFilterHalfFluxRadius(stars []Star, data []float32, width int32, radi
 
 				index:=s.Index+y*width+x
 				value:=float32(0.0)
-				if index>=0 && index<int32(len(data)) {
+				if xC+x>=0 && xC+x<width && yC+y>=0 && yC+y<height { // do not wrap around into adjacent lines
 					v:=data[index]-location
 					if v>0 { value=v }
 				}
@@ -367,7 +371,7 @@ func calcAndFilterHalfFluxRadius(stars []Star, data []float32, width int32, radi
 
 				index:=s.Index+y*width+x
 				value:=float32(0.0)
-				if index>=0 && index<int32(len(data)) {
+				if xC+x>=0 && xC+x<width && yC+y>=0 && yC+y<height { // do not wrap around into adjacent lines
 					v:=data[index]-location
 					if v>0 { value=v }
 				}
-- 
2.43.0


From dce86cc87b9a9ba5570c464c6552dfe2526f5348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:56 +0000
Subject: [PATCH 073/105] fix: stars are ordered by their final mass, and the
 average radius is finite without stars

---
 internal/star/findstars.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/star/findstars.go b/internal/star/findstars.go
index 8d60d60..ec2350f 100644
--- a/internal/star/findstars.go
+++ b/internal/star/findstars.go
@@ -395,6 +395,8 @@ func calcAndFilterHalfFluxRadius(stars []Star, data []float32, width int32, radi
 
 		avgHFR+=float32(hfr)
 	}
-	avgHFR/=float32(numRemainingStars)
-	return stars[:numRemainingStars], avgHFR
+	if numRemainingStars>0 { avgHFR/=float32(numRemainingStars) }
+	stars=stars[:numRemainingStars]
+	QSortStarsDesc(stars) // masses have changed
+	return stars, avgHFR
 }
-- 
2.43.0


From 097a41639e32fd3ee413e7ad27b1d37498b7fcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:57 +0000
Subject: [PATCH 074/105] fix: bad pixel rejection estimates the noise of small
 images from enough samples

---
 internal/star/findstars.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/star/findstars.go b/internal/star/findstars.go
index ec2350f..1b188bc 100644
--- a/internal/star/findstars.go
+++ b/internal/star/findstars.go
@@ -139,6 +139,7 @@ func rejectBadPixels(stars []Star, data []float32, width int32, sigma float32, m
 	if medianDiffStats==nil {
 		// Estimate standard deviation of pixels from local neighborhood median based on random 1% of pixels
 		numSamples:=len(data)/100
+		if numSamples<100 { numSamples=100 } // small images
 		samples:=make([]float32,numSamples)
 		rng:=fastrand.RNG{}
 		for i:=0; i<numSamples; i++ {
-- 
2.43.0


From 0eedccbf379d99253b18f892937abf71eb29a06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:00 +0000
Subject: [PATCH 075/105] fix: combining channels of different dimensions
 crashed or mixed up planes, now an error

---
 internal/ops/rgb/rgb.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/ops/rgb/rgb.go b/internal/ops/rgb/rgb.go
index f530d65..be68d0e 100644
--- a/internal/ops/rgb/rgb.go
+++ b/internal/ops/rgb/rgb.go
@@ -71,6 +71,11 @@ func (op *OpRGBCombine) Apply(fs []*fits.Image, c *ops.Context) (fOut *fits.Imag
 	if len(fs) < 3 || len(fs) > 4 {
 		return nil, fmt.Errorf("invalid number of channels for color combination: %d", len(fs))
 	}
+	for _, f := range fs {
+		if !fits.EqualInt32Slice(f.Naxisn, fs[0].Naxisn) {
+			return nil, fmt.Errorf("%d: channel dimensions %v differ from %v, cannot combine", f.ID, f.Naxisn, fs[0].Naxisn)
+		}
+	}
 	if len(fs) == 4 {
 		c.LumFrame = fs[3]
 	}
-- 
2.43.0


From 48fe351edaa62e97f60d066125bc1d19e10dd4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:01 +0000
Subject: [PATCH 076/105] fix: combining constant channels gave NaN pixels

---
 internal/fits/rgb.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/fits/rgb.go b/internal/fits/rgb.go
index ecf52ea..1b14c76 100644
--- a/internal/fits/rgb.go
+++ b/internal/fits/rgb.go
@@ -73,6 +73,7 @@ func getCommonNormalizationFactors(chans []*Image) (min, mult float32) {
 			max=ch.Stats.Max()
 		}
 	}
+	if max<=min { return min, 1 } // constant channels have no range to normalize
 	mult=1 / (max - min)
 	return min, mult
 }
-- 
2.43.0


From 6699aaf9c3437c9b8aa1a4594387dc2fa9390dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:00 +0000
Subject: [PATCH 077/105] fix: balancing colours of an image with a channel
 without contrast gave NaN pixels

---
 internal/fits/rgb.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/fits/rgb.go b/internal/fits/rgb.go
index 1b14c76..8cb81de 100644
--- a/internal/fits/rgb.go
+++ b/internal/fits/rgb.go
@@ -135,9 +135,10 @@ func (f *Image) setBlackWhitePoints(curShadows, curHighlights, targetShadows, ta
 	// starNewR, starNewG, starNewB := float32(0.902), float32(0.99), float32(0.955)
 
 	// Calculate multiplicative correction factors
-	alphaR:=(newHighlights.R - newShadows.R) / (curHighlights.R - curShadows.R)
-	alphaG:=(newHighlights.G - newShadows.G) / (curHighlights.G - curShadows.G)
-	alphaB:=(newHighlights.B - newShadows.B) / (curHighlights.B - curShadows.B)
+	alphaR, alphaG, alphaB:=float32(1), float32(1), float32(1) // channels without contrast cannot be scaled, only shifted
+	if curHighlights.R!=curShadows.R { alphaR=(newHighlights.R - newShadows.R) / (curHighlights.R - curShadows.R) }
+	if curHighlights.G!=curShadows.G { alphaG=(newHighlights.G - newShadows.G) / (curHighlights.G - curShadows.G) }
+	if curHighlights.B!=curShadows.B { alphaB=(newHighlights.B - newShadows.B) / (curHighlights.B - curShadows.B) }
 
 	// Calculate additive correction factors 
 	betaR:=newShadows.R - alphaR * curShadows.R
-- 
2.43.0


From 47e165c6dc9391473a56fc43736c21d9f296c341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:01 +0000
Subject: [PATCH 078/105] fix: colour balance without a usable block or star
 crashed or gave non-finite pixels, now an error

---
 internal/fits/rgb.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/internal/fits/rgb.go b/internal/fits/rgb.go
index 8cb81de..3b1749d 100644
--- a/internal/fits/rgb.go
+++ b/internal/fits/rgb.go
@@ -17,6 +17,7 @@
 package fits
 
 import (
+	"errors"
 	"io"
 	"fmt"
 	"math"
@@ -93,6 +94,10 @@ func (hsl *Image) ApplyLuminanceToCIExyY(lum *Image) {
 // Then find the darkest block, and set it to the desired color; and find the average star color,
 // and set it to the desired color  
 func (f *Image) SetBlackWhitePoints(block int32, border, skipBright, skipDim float32, shadows, highlights RGB, logWriter io.Writer) error {
+	if block<=0 || border<0 || skipBright<0 || skipDim<0 {
+		return fmt.Errorf("invalid color balance parameters block %d border %g skipBright %g skipDim %g", block, border, skipBright, skipDim)
+	}
+
 	// Estimate location (=histogram peak, background black point) per color channel
 	statsR:=stats.NewStatsForChannel(f.Data, f.Naxisn[0], 0, 3)
 	statsG:=stats.NewStatsForChannel(f.Data, f.Naxisn[0], 1, 3)
@@ -110,9 +115,11 @@ func (f *Image) SetBlackWhitePoints(block int32, border, skipBright, skipDim flo
 	statsG=stats.NewStatsForChannel(f.Data, f.Naxisn[0], 1, 3)
 	statsB=stats.NewStatsForChannel(f.Data, f.Naxisn[0], 2, 3)
 
-	darkest:= f.findDarkestBlock(block, border)
+	darkest, err:= f.findDarkestBlock(block, border)
+	if err!=nil { return err }
 	clip   := float32(0.9)
-	stars  := f.meanStarIntensity(skipBright, skipDim, RGB{statsR.Max()*clip, statsG.Max()*clip, statsB.Max()*clip})
+	stars, err  := f.meanStarIntensity(skipBright, skipDim, RGB{statsR.Max()*clip, statsG.Max()*clip, statsB.Max()*clip})
+	if err!=nil { return err }
 	fmt.Fprintf(logWriter, "Darkest block is %s and mean star color is %s\n", darkest, stars)
 
 	f.setBlackWhitePoints(darkest, stars, shadows, highlights, logWriter)
@@ -152,7 +159,7 @@ func (f *Image) setBlackWhitePoints(curShadows, curHighlights, targetShadows, ta
 
 
 // finds mean color of the darkest block in a given color image
-func (f *Image) findDarkestBlock(blockSize int32, border float32) RGB {
+func (f *Image) findDarkestBlock(blockSize int32, border float32) (RGB, error) {
   width:=f.Naxisn[0]
   height:=f.Naxisn[1]
   channelSize:=width*height
@@ -217,17 +224,18 @@ func (f *Image) findDarkestBlock(blockSize int32, border float32) RGB {
      }
   }
 
-  return RGB{rMin, gMin, bMin}
+  if lMin==math.MaxFloat32 { return RGB{}, fmt.Errorf("no %dx%d block inside border %g of %dx%d image to balance colors", blockSize, blockSize, border, width, height) }
+  return RGB{rMin, gMin, bMin}, nil
 }
 
 
 // Returns mean color for the stars in the given RGB image
-func (f *Image) meanStarIntensity(skipBright, skipDim float32, clip RGB) RGB {
-	if len(f.Stars)==0 { return RGB{0, 0, 0} }
+func (f *Image) meanStarIntensity(skipBright, skipDim float32, clip RGB) (RGB, error) {
+	if len(f.Stars)==0 { return RGB{}, errors.New("no stars to balance colors") }
 
 	sStart:=             int(float32(len(f.Stars))*skipBright)
 	sEnd  :=len(f.Stars)-int(float32(len(f.Stars))*skipDim)
-	if sStart>=sEnd { return RGB{0, 0, 0} }
+	if sStart>=sEnd { return RGB{}, errors.New("no stars left to balance colors after skipping brightest and dimmest") }
 
 	width:=f.Naxisn[0]
 	height:=f.Naxisn[1]
@@ -278,6 +286,7 @@ func (f *Image) meanStarIntensity(skipBright, skipDim float32, clip RGB) RGB {
 	}
 
 	// normalize and return totals
+	if totalPixels==0 { return RGB{}, errors.New("no unclipped star pixels to balance colors") }
 	norm:=1.0/float32(totalPixels)
-	return RGB{totalR*norm, totalG*norm, totalB*norm}
+	return RGB{totalR*norm, totalG*norm, totalB*norm}, nil
 }
-- 
2.43.0


From 35e464e5eb1271ad03ae418879bb4b164c17a3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:32 +0000
Subject: [PATCH 079/105] fix: colour operators crashed or garbled images
 without three channels or luminance frames of other sizes, now an error

---
 internal/fits/fits.go   |  8 ++++++++
 internal/ops/hsl/hsl.go | 45 +++++++++++++++++++++++++++++++++++++++++
 internal/ops/rgb/rgb.go |  9 +++++++++
 3 files changed, 62 insertions(+)

diff --git a/internal/fits/fits.go b/internal/fits/fits.go
index 1ce2c93..dc6a5d0 100644
--- a/internal/fits/fits.go
+++ b/internal/fits/fits.go
@@ -230,6 +230,14 @@ func NewImageFromStars(src *Image, hfrMultiple float32) *Image {
 
 
 
+// Returns an error if the image does not have the three channels color operators need
+func (f *Image) RequireColor() error {
+    if len(f.Naxisn)!=3 || f.Naxisn[2]!=3 || len(f.Data)!=3*int(f.Naxisn[0])*int(f.Naxisn[1]) {
+        return fmt.Errorf("%d: image with dimensions %v is not a three-channel color image", f.ID, f.Naxisn)
+    }
+    return nil
+}
+
 // Equal tells whether a and b contain the same elements.
 // A nil argument is equivalent to an empty slice.
 func EqualInt32Slice(a, b []int32) bool {
diff --git a/internal/ops/hsl/hsl.go b/internal/ops/hsl/hsl.go
index 21f8a3c..919ba75 100644
--- a/internal/ops/hsl/hsl.go
+++ b/internal/ops/hsl/hsl.go
@@ -60,6 +60,12 @@ func (op *OpHSLApplyLum) Apply(f *fits.Image, c *ops.Context) (fOut *fits.Image,
 	if c.LumFrame == nil {
 		return f, nil
 	}
+	if err = f.RequireColor(); err != nil {
+		return nil, err
+	}
+	if !fits.EqualInt32Slice(c.LumFrame.Naxisn, f.Naxisn[:2]) {
+		return nil, fmt.Errorf("%d: luminance dimensions %v differ from image dimensions %v", f.ID, c.LumFrame.Naxisn, f.Naxisn)
+	}
 	fmt.Fprintf(c.Log, "Converting mono luminance image to HSLuv as well...\n")
 	c.LumFrame.MonoToHSLuvLum()
 
@@ -113,6 +119,12 @@ func (op *OpHSLScaleOffsetChannel) Apply(f *fits.Image, c *ops.Context) (fOut *f
 	if op.Scale == 1 && op.Offset == 0 {
 		return f, nil
 	}
+	if err = f.RequireColor(); err != nil {
+		return nil, err
+	}
+	if op.ChannelID < 0 || op.ChannelID > 2 {
+		return nil, fmt.Errorf("%d: image has no channel %d", f.ID, op.ChannelID)
+	}
 	fmt.Fprintf(c.Log, "%d: Applying pixel math x = x * %.3f + %.3f%% to channel %d\n", f.ID, op.Scale, op.Offset*100, op.ChannelID)
 	f.ApplyScaleOffsetToChannel(op.ChannelID, op.Scale, op.Offset)
 	return f, nil
@@ -159,6 +171,9 @@ func (op *OpHSLNeutralizeBackground) Apply(f *fits.Image, c *ops.Context) (fOut
 	if op.SigmaLow <= 0 && op.SigmaHigh <= 0 {
 		return f, nil
 	}
+	if err = f.RequireColor(); err != nil {
+		return nil, err
+	}
 	fmt.Fprintf(c.Log, "Neutralizing background values below %.4g sigma, keeping color above %.4g sigma\n", op.SigmaLow, op.SigmaHigh)
 
 	st := stats.NewStatsForChannel(f.Data, f.Naxisn[0], 2, 3)
@@ -210,6 +225,9 @@ func (op *OpHSLSaturationGamma) Apply(f *fits.Image, c *ops.Context) (fOut *fits
 	if op.Gamma == 1.0 {
 		return f, nil
 	}
+	if err = f.RequireColor(); err != nil {
+		return nil, err
+	}
 	fmt.Fprintf(c.Log, "Applying gamma %.2f to saturation for values %.4g sigma above background...\n", op.Gamma, op.Sigma)
 
 	st := stats.NewStatsForChannel(f.Data, f.Naxisn[0], 2, 3)
@@ -264,6 +282,9 @@ func (op *OpHSLSelectiveSaturation) Apply(f *fits.Image, c *ops.Context) (fOut *
 	if op.Factor == 1 {
 		return f, nil
 	}
+	if err = f.RequireColor(); err != nil {
+		return nil, err
+	}
 	fmt.Fprintf(c.Log, "Multiplying LCH chroma (saturation) by %.4g for hues in [%g,%g]...\n", op.Factor, op.From, op.To)
 	f.AdjustChromaForHues(op.From, op.To, op.Factor)
 	return f, nil
@@ -310,6 +331,9 @@ func (op *OpHSLRotateHue) Apply(f *fits.Image, c *ops.Context) (fOut *fits.Image
 	if op.Offset == 0 {
 		return f, nil
 	}
+	if err = f.RequireColor(); err != nil {
+		return nil, err
+	}
 	fmt.Fprintf(c.Log, "Rotating LCH hue angles in [%g,%g] by %.4g for lum>=loc+%g*scale...\n", op.From, op.To, op.Offset, op.Sigma)
 
 	st := stats.NewStatsForChannel(f.Data, f.Naxisn[0], 2, 3)
@@ -355,6 +379,9 @@ func (op *OpHSLSCNR) Apply(f *fits.Image, c *ops.Context) (fOut *fits.Image, err
 	if op.Factor == 0 {
 		return f, nil
 	}
+	if err = f.RequireColor(); err != nil {
+		return nil, err
+	}
 	fmt.Fprintf(c.Log, "Applying SCNR of %.4g ...\n", op.Factor)
 	f.SCNR(op.Factor)
 
@@ -398,6 +425,9 @@ func (op *OpHSLMidtones) Apply(f *fits.Image, c *ops.Context) (fOut *fits.Image,
 	if op.Mid == 0 {
 		return f, nil
 	}
+	if err = f.RequireColor(); err != nil {
+		return nil, err
+	}
 	fmt.Fprintf(c.Log, "Applying midtone correction with midtone=%.2f%% x scale and black=location - %.2f%% x scale\n", op.Mid, op.Black)
 
 	st := stats.NewStatsForChannel(f.Data, f.Naxisn[0], 2, 3)
@@ -449,6 +479,9 @@ func (op *OpHSLGamma) Apply(f *fits.Image, c *ops.Context) (fOut *fits.Image, er
 	if op.Gamma == 1.0 {
 		return f, nil
 	}
+	if err = f.RequireColor(); err != nil {
+		return nil, err
+	}
 	fmt.Fprintf(c.Log, "Applying gamma %.3g\n", op.Gamma)
 	f.ApplyGammaToChannel(2, op.Gamma)
 	return f, nil
@@ -491,6 +524,9 @@ func (op *OpHSLGammaPP) Apply(f *fits.Image, c *ops.Context) (fOut *fits.Image,
 	if op.Gamma == 1.0 {
 		return f, nil
 	}
+	if err = f.RequireColor(); err != nil {
+		return nil, err
+	}
 
 	st := stats.NewStatsForChannel(f.Data, f.Naxisn[0], 2, 3)
 	loc, scale := st.Location(), st.Scale()
@@ -543,6 +579,9 @@ func (op *OpHSLUnsharpMask) Apply(f *fits.Image, c *ops.Context) (fOut *fits.Ima
 	if op.Gain == 0.0 || op.Sigma <= 0 {
 		return f, nil
 	}
+	if err = f.RequireColor(); err != nil {
+		return nil, err
+	}
 
 	st := stats.NewStatsForChannel(f.Data, f.Naxisn[0], 2, 3)
 	absThresh := st.Location() + st.Scale()*op.Threshold
@@ -596,6 +635,9 @@ func (op *OpHSLScaleBlack) Apply(f *fits.Image, c *ops.Context) (fOut *fits.Imag
 	if op.Location == 0 {
 		return f, nil
 	}
+	if err = f.RequireColor(); err != nil {
+		return nil, err
+	}
 
 	st := stats.NewStatsForChannel(f.Data, f.Naxisn[0], 2, 3)
 	loc, scale := st.Location(), st.Scale()
@@ -650,6 +692,9 @@ func (op *OpHSLStretchIterative) UnmarshalJSON(data []byte) error {
 
 func (op *OpHSLStretchIterative) Apply(f *fits.Image, c *ops.Context) (result *fits.Image, err error) {
 	if op.Location==0 && op.Scale==0 { return f, nil }
+	if err = f.RequireColor(); err != nil {
+		return nil, err
+	}
 	fmt.Fprintf(c.Log, "%d: Auto-stretching HSL loc to %.2f%% and scale to %.2f%% ...\n", f.ID, op.Location*100, op.Scale*100)
 
 	for i:=0; ; i++ {
diff --git a/internal/ops/rgb/rgb.go b/internal/ops/rgb/rgb.go
index be68d0e..c1bd889 100644
--- a/internal/ops/rgb/rgb.go
+++ b/internal/ops/rgb/rgb.go
@@ -133,6 +133,9 @@ func (op *OpRGBBalance) Apply(f *fits.Image, c *ops.Context) (fOut *fits.Image,
 		return nil, errors.New("cannot balance colors with zero stars detected")
 	}
 
+	if err = f.RequireColor(); err != nil {
+		return nil, err
+	}
 	fmt.Fprintf(c.Log, "Balancing darkest %dx%d block outside %.1f%% border to color tint %s and stars skipping brightest %.1f%% and dimmest %.1f%% to %s\n",
 		op.Block, op.Block, 100*op.Border, op.Shadows, 100*op.SkipBright, 100*op.SkipDim, op.Highlights)
 	err = f.SetBlackWhitePoints(op.Block, op.Border, op.SkipBright, op.SkipDim, op.Shadows, op.Highlights, c.Log)
@@ -169,6 +172,9 @@ func (op *OpRGBToHSLuv) UnmarshalJSON(data []byte) error {
 }
 
 func (op *OpRGBToHSLuv) Apply(f *fits.Image, c *ops.Context) (fOut *fits.Image, err error) {
+	if err = f.RequireColor(); err != nil {
+		return nil, err
+	}
 	fmt.Fprintf(c.Log, "Converting linear RGB to nonlinear HSLuv...\n")
 	f.RGBToHSLuv()
 	return f, nil
@@ -204,6 +210,9 @@ func (op *OpHSLuvToRGB) UnmarshalJSON(data []byte) error {
 }
 
 func (op *OpHSLuvToRGB) Apply(f *fits.Image, c *ops.Context) (fOut *fits.Image, err error) {
+	if err = f.RequireColor(); err != nil {
+		return nil, err
+	}
 	fmt.Fprintf(c.Log, "Converting nonlinear HSLuv to linear RGB\n")
 	f.HSLuvToRGB()
 	return f, nil
-- 
2.43.0


From d73815d3f43134fe5ab28b294e0f8bba3ac36874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:36 +0000
Subject: [PATCH 080/105] fix: some saturated colours, e.g. deep blues, turned
 red in HSLuv

---
 internal/fits/pixelops.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/internal/fits/pixelops.go b/internal/fits/pixelops.go
index 83d01c4..fff539d 100644
--- a/internal/fits/pixelops.go
+++ b/internal/fits/pixelops.go
@@ -382,11 +382,23 @@ func pf3ChanRGBToHSLuv(rs,gs,bs []float32, params interface{}) {
 	for i:=0; i<len(rs); i++ {
 		r, g, b:=rs[i], gs[i], bs[i]
 
-		col:=colorful.LinearRgb(float64(r),float64(g),float64(b))
-		h,s,l:=col.HSLuv()
+		rs[i], gs[i], bs[i]=LinearRGBToHSLuv(float64(r),float64(g),float64(b))
+	}
+}
 
-		rs[i], gs[i], bs[i]=float32(h), float32(s), float32(l) 
+// convert linear RGB to HSLuv. Calculates the hue itself, as package colorful returns 
+// a hue of zero for all colors with u close to zero, or close to v
+func LinearRGBToHSLuv(r, g, b float64) (h, s, l float32) {
+	ll, u, v := colorful.LinearRgb(r, g, b).LuvWhiteRef(hSLuvD65)
+	hue, chroma := 0.0, math.Hypot(u, v)
+	if chroma>1e-6 { // hues of neutral colors are undefined
+		hue=math.Atan2(v, u)*180/math.Pi
+		if hue<0 { hue+=360 }
 	}
+	hh, ss, ll := colorful.LuvLChToHSLuv(ll, chroma, hue)
+	h=float32(hh)
+	if h>=360 { h-=360 } // values close below 360 round up
+	return h, float32(ss), float32(ll)
 }
 
 // Convert RGB to HSLuv pixels. Operates in-place.
@@ -568,9 +580,7 @@ func pf3ChanSCNR(hs,ss,ls []float32, params interface{}) {
 		weightedG:=factor*g2+(1-factor)*float32(g)
 
 		// reassemble with luminance protection
-		col     =colorful.LinearRgb(float64(r),float64(weightedG),float64(b))
-		hnew,snew,_:=col.HSLuv()
-		hs[i], ss[i]=float32(hnew), float32(snew)        
+		hs[i], ss[i], _=LinearRGBToHSLuv(r, float64(weightedG), b)
 	}
 }
 
-- 
2.43.0


From 2e460e92a6795ebdb5002d3689b27f5515e7c8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:37 +0000
Subject: [PATCH 081/105] fix: stale statistics after applying a luminance
 frame

---
 internal/fits/rgb.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/fits/rgb.go b/internal/fits/rgb.go
index 3b1749d..f947404 100644
--- a/internal/fits/rgb.go
+++ b/internal/fits/rgb.go
@@ -86,6 +86,7 @@ func (hsl *Image) ApplyLuminanceToCIExyY(lum *Image) {
 	l:=len(hsl.Data)/3
 	dest:=hsl.Data[2*l:]
 	copy(dest, lum.Data)
+	hsl.Stats.Clear()
 	hsl.Exposure+=lum.Exposure
 }
 
-- 
2.43.0


From c83372df28957a93c1a5d77eb397bb703415be38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:42 +0000
Subject: [PATCH 082/105] fix: statistics of a loaded color TIFF are those of
 its pixels, not of a weighted grey value

---
 internal/fits/tiff16.go | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/internal/fits/tiff16.go b/internal/fits/tiff16.go
index c1e7e6e..0a27b4a 100644
--- a/internal/fits/tiff16.go
+++ b/internal/fits/tiff16.go
@@ -215,23 +215,22 @@ func (f *Image) ReadTIFF(fileName string) error {
 				f.Data[y*width+x+sizeThird] = g
 				f.Data[y*width+x+sizeTwoThirds] = b
 
-				// convert r, g, b to greyscale value
-				gray := 0.2126*r + 0.7152*g + 0.0722*b
-
 				// update stats
-				if gray < min {
-					min = gray
+				for _, v := range [3]float32{r, g, b} {
+					if v < min {
+						min = v
+					}
+					if v > max {
+						max = v
+					}
+					sum += float64(v)
 				}
-				if gray > max {
-					max = gray
-				}
-				sum += float64(gray)
 			}
 		}
 	}
 
 	// finalize stats
-	mean := float32(sum / float64(width) / float64(height))
+	mean := float32(sum / float64(f.Pixels))
 	f.Stats = stats.NewStatsWithMMM(f.Data, f.Naxisn[0], min, max, mean)
 
 	return nil
-- 
2.43.0


From 8376ca15a873399a46345e17e6636d2b87d1bd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:26 +0000
Subject: [PATCH 083/105] fix: reference frame from a file without star
 detection crashed with a nil pointer

---
 internal/ops/ref/refframe.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/internal/ops/ref/refframe.go b/internal/ops/ref/refframe.go
index f1c3b44..a50c888 100644
--- a/internal/ops/ref/refframe.go
+++ b/internal/ops/ref/refframe.go
@@ -165,13 +165,15 @@ func (op *OpSelectReference) applySingle(i int, ins []ops.Promise, mats *materia
 				return nil, c.RefFrameError
 			}
 
-			promises, c.RefFrameError = op.StarDetect.MakePromises([]ops.Promise{promises[0]}, c)
-			if c.RefFrameError != nil {
-				return nil, c.RefFrameError
-			}
-			if len(promises) != 1 {
-				c.RefFrameError = errors.New("star detect did not return exactly one promise")
-				return nil, c.RefFrameError
+			if op.StarDetect != nil {
+				promises, c.RefFrameError = op.StarDetect.MakePromises([]ops.Promise{promises[0]}, c)
+				if c.RefFrameError != nil {
+					return nil, c.RefFrameError
+				}
+				if len(promises) != 1 {
+					c.RefFrameError = errors.New("star detect did not return exactly one promise")
+					return nil, c.RefFrameError
+				}
 			}
 			var refFrame *fits.Image
 			refFrame, c.RefFrameError = promises[0]()
-- 
2.43.0


From e08bfe59b5554f90080dd7cfa9da48c98f5b2c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:30 +0000
Subject: [PATCH 084/105] fix: operators of a job posted to the server logged
 to its response concurrently, a data race

---
 internal/rest/serve.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/internal/rest/serve.go b/internal/rest/serve.go
index 0228cd5..f398ea5 100755
--- a/internal/rest/serve.go
+++ b/internal/rest/serve.go
@@ -22,6 +22,7 @@ import (
 	"io"
 	"net/http"
 	"runtime/debug"
+	"sync"
 
 	"github.com/gin-gonic/gin"
 
@@ -92,6 +93,18 @@ func printOp(logWriter io.Writer, prefix, suffix string, op interface{}) error {
 	return nil
 }
 
+// Serializes writes of concurrent operators to an underlying writer, which need not be thread-safe itself
+type syncWriter struct {
+	mutex sync.Mutex
+	w     io.Writer
+}
+
+func (s *syncWriter) Write(p []byte) (n int, err error) {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
+	return s.w.Write(p)
+}
+
 func postJob(c *gin.Context) {
 	{
 		// raw,_:=c.GetRawData()
@@ -118,7 +131,7 @@ func postJob(c *gin.Context) {
 		}
 
 		// create promises for the given command sequence
-		oc := ops.NewContext(logWriter, stMemory, stats.LSESCMedianQn)
+		oc := ops.NewContext(&syncWriter{w: logWriter}, stMemory, stats.LSESCMedianQn)
 		promises, err := op.MakePromises(nil, oc)
 		if err != nil {
 			fmt.Fprintf(logWriter, "Error making promises: %s\n", err.Error())
-- 
2.43.0


From 7a3d8b4dd963966f6b2310205cdd2e67625670a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:31 +0000
Subject: [PATCH 085/105] fix: the arguments printed for a job posted to the
 server lacked its steps

---
 internal/rest/serve.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/rest/serve.go b/internal/rest/serve.go
index f398ea5..0bf4081 100755
--- a/internal/rest/serve.go
+++ b/internal/rest/serve.go
@@ -125,7 +125,7 @@ func postJob(c *gin.Context) {
 		logWriter.WriteHeader(http.StatusOK)
 
 		// play back arguments for debugging
-		if err := printOp(logWriter, "Arguments:\n", "\n", op); err != nil {
+		if err := printOp(logWriter, "Arguments:\n", "\n", &op); err != nil {
 			fmt.Fprintf(logWriter, "Error printing arguments: %s\n", err.Error())
 			return
 		}
-- 
2.43.0


From cea48a895b3f559628019fe7d9accd6aa2371305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:48 +0000
Subject: [PATCH 086/105] fix: reference selection with an invalid target
 crashed the server

---
 internal/ops/ref/refframe.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/ops/ref/refframe.go b/internal/ops/ref/refframe.go
index a50c888..0cf9ff8 100644
--- a/internal/ops/ref/refframe.go
+++ b/internal/ops/ref/refframe.go
@@ -83,6 +83,9 @@ func (op *OpSelectReference) MakePromises(ins []ops.Promise, c *ops.Context) (ou
 	if len(ins) == 0 {
 		return nil, errors.New(fmt.Sprintf("%s operator needs inputs", op.Type))
 	}
+	if op.Target < 0 || int(op.Target) >= len(srTargetStrings) {
+		return nil, errors.New(fmt.Sprintf("%s operator with invalid target %d", op.Type, op.Target))
+	}
 
 	outs = make([]ops.Promise, len(ins))
 	mats := &materializedInputs{}
-- 
2.43.0


From dfaa32b6a94f8c54ee85a0b7c58e759deb53cbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:35 +0000
Subject: [PATCH 087/105] fix: debanding crashed on a row or column of NaN
 pixels

---
 internal/ops/pre/banding.go | 45 ++++++++++++++++++++++++++++++++++---
 1 file changed, 42 insertions(+), 3 deletions(-)

diff --git a/internal/ops/pre/banding.go b/internal/ops/pre/banding.go
index 46fe5a0..e988e56 100644
--- a/internal/ops/pre/banding.go
+++ b/internal/ops/pre/banding.go
@@ -88,10 +88,22 @@ func (op *OpDebandHoriz) Apply(f *fits.Image, c *ops.Context) (result *fits.Imag
 				numSamples++
 			}
 		}
-		if numSamples==0 { numSamples=copy(rowBuffer, ds) } // entire row is above the threshold
+		if numSamples==0 { // entire row is above the threshold
+			for _,d:=range(ds) {
+				if d==d { // skip NaNs
+					rowBuffer[numSamples]=d
+					numSamples++
+				}
+			}
+		}
+		if numSamples==0 { // entire row is NaN
+			rowPercentiles[row]=float32(math.NaN())
+			continue
+		}
 		k:=int(float32(numSamples)*op.Percentile*0.01)
 		rowPercentiles[row]=qsort.QSelectFloat32(rowBuffer[:numSamples],int(k))
 	}
+	if !fillNaNs(rowPercentiles) { return f, nil }
 
 	// correct each row
 	lowest, highest:=float32(1), float32(0)
@@ -140,6 +152,23 @@ func correctionFactor(median, percentile float32) float32 {
 	return factor
 }
 
+// Replaces NaNs with their predecessors, or the first other value at the start.
+// Returns false if there is none
+func fillNaNs(as []float32) bool {
+	prev:=float32(math.NaN())
+	for _,a:=range(as) {
+		if a==a {
+			prev=a
+			break
+		}
+	}
+	for i,a:=range(as) {
+		if a==a { prev=a }
+		as[i]=prev
+	}
+	return prev==prev
+}
+
 func fixWindowEdge(window []float32, missing int32) {
   // calculate medians of the left and right halves of the window
   left:=make([]float32, len(window)/2)
@@ -234,12 +263,22 @@ func (op *OpDebandVert) Apply(f *fits.Image, c *ops.Context) (result *fits.Image
 			}
 		}
 		if numSamples==0 { // entire column is above the threshold
-			for row:=int32(0); row<numRows; row++ { colBuffer[row]=f.Data[row*numCols + col] }
-			numSamples=int(numRows)
+			for row:=int32(0); row<numRows; row++ {
+				d:=f.Data[row*numCols + col]
+				if d==d { // skip NaNs
+					colBuffer[numSamples]=d
+					numSamples++
+				}
+			}
+		}
+		if numSamples==0 { // entire column is NaN
+			colPercentiles[col]=float32(math.NaN())
+			continue
 		}
 		k:=int(float32(numSamples)*op.Percentile*0.01)
 		colPercentiles[col]=qsort.QSelectFloat32(colBuffer[:numSamples],int(k))
 	}
+	if !fillNaNs(colPercentiles) { return f, nil }
 
 	// calculate median of percentiles
 	copy(colPercentilesClone, colPercentiles)
-- 
2.43.0


From 73a99c7702cd85c41508aee55e85005b3ccf4c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:17 +0000
Subject: [PATCH 088/105] fix: sorting and selecting ran off the array on NaN
 values, crashing the server

---
 internal/qsort/qsort.go | 8 ++++----
 internal/star/qsort.go  | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/internal/qsort/qsort.go b/internal/qsort/qsort.go
index f7ecf09..16389a9 100644
--- a/internal/qsort/qsort.go
+++ b/internal/qsort/qsort.go
@@ -44,11 +44,11 @@ func QPartitionFloat32(a []float32) int {
     for {
         for {
             l++
-            if a[l]>=pivot { break }
+            if !(a[l]<pivot) { break }
         }
         for {
             r--
-            if a[r]<=pivot { break }
+            if !(a[r]>pivot) { break }
         }
         if l >= r { return r }
         a[l], a[r] = a[r], a[l]
@@ -102,12 +102,12 @@ func QSelectFloat32(a []float32, k int) float32 {
             for {
                 l++
                 // if l>=len(a) { CheckNaNs(a) }
-                if a[l]>=pivot { break }
+                if !(a[l]<pivot) { break }
             }
             for {
                 r--
                 // if r<0 { CheckNaNs(a) }
-                if a[r]<=pivot { break }
+                if !(a[r]>pivot) { break }
             }
             if l >= r { break } // index in r
             a[l], a[r] = a[r], a[l]
diff --git a/internal/star/qsort.go b/internal/star/qsort.go
index 8098c62..0c73374 100644
--- a/internal/star/qsort.go
+++ b/internal/star/qsort.go
@@ -43,11 +43,11 @@ func QPartitionStarsDesc(a []Star) int {
     for {
         for {
             l++
-            if a[l].Mass<=pivot { break }
+            if !(a[l].Mass>pivot) { break }
         }
         for {
             r--
-            if a[r].Mass>=pivot { break }
+            if !(a[r].Mass<pivot) { break }
         }
         if l >= r { return r }
         a[l], a[r] = a[r], a[l]
-- 
2.43.0


From 22743590bd242f62de915cb27c2671365dfe2da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:11 +0000
Subject: [PATCH 089/105] fix: debanding crashed on a one-dimensional image

---
 internal/ops/pre/banding.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/ops/pre/banding.go b/internal/ops/pre/banding.go
index e988e56..7b65911 100644
--- a/internal/ops/pre/banding.go
+++ b/internal/ops/pre/banding.go
@@ -61,6 +61,8 @@ func (op *OpDebandHoriz) UnmarshalJSON(data []byte) error {
 func (op *OpDebandHoriz) Apply(f *fits.Image, c *ops.Context) (result *fits.Image, err error) {
 	if op.Percentile<=0 || op.Percentile>=100 || op.Window<=0 { return f, nil }
 
+	if len(f.Naxisn)<2 { return nil, fmt.Errorf("%d: cannot deband image with dimensions %v", f.ID, f.Naxisn) }
+
 	// obtain dimensions
 	numCols, numRows   :=f.Naxisn[0], f.Naxisn[1]
 	windowRows:=op.Window
@@ -235,6 +237,8 @@ func (op *OpDebandVert) UnmarshalJSON(data []byte) error {
 func (op *OpDebandVert) Apply(f *fits.Image, c *ops.Context) (result *fits.Image, err error) {
 	if op.Percentile<=0 || op.Percentile>=100 || op.Window<=0 { return f, nil }
 
+	if len(f.Naxisn)<2 { return nil, fmt.Errorf("%d: cannot deband image with dimensions %v", f.ID, f.Naxisn) }
+
 	// obtain dimensions
 	numCols, numRows   :=f.Naxisn[0], f.Naxisn[1]
 	windowCols:=op.Window
-- 
2.43.0


From ef7abab15b99d359f4135d2e584cc6fd60d31749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:13 +0000
Subject: [PATCH 090/105] fix: background extraction looped forever when the
 median of a missing cell's neighbors is not a number

---
 internal/ops/pre/background.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/ops/pre/background.go b/internal/ops/pre/background.go
index f5b00c3..0fffaf3 100644
--- a/internal/ops/pre/background.go
+++ b/internal/ops/pre/background.go
@@ -288,7 +288,7 @@ func interpolate(params []float32, width, height int32, neighbors int) (numChang
 			p := params[index]
 			if math.IsNaN(float64(p)) {
 				predict, numGathered := MedianInterpolation(params, width, height, x, y, temp)
-				if numGathered >= neighbors {
+				if numGathered >= neighbors && !math.IsNaN(float64(predict)) { // NaN for neighbors of opposite infinities
 					//LogPrintf("Replacing prediction for x%d y%d of %f with %f\n", x, y, p, predict)
 					params[index] = predict
 					numChanges++
-- 
2.43.0


From 08906af2431dd22fbbeb51bba727901084360c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:38 +0000
Subject: [PATCH 091/105] fix: a single operator in place of a sequence was
 accepted as job or batch, but silently ignored; parsing into a sequence
 appended to its steps

---
 internal/ops/operator.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/ops/operator.go b/internal/ops/operator.go
index 728f8ae..53c89d6 100644
--- a/internal/ops/operator.go
+++ b/internal/ops/operator.go
@@ -492,6 +492,11 @@ func (op *OpSequence) UnmarshalJSON(b []byte) error {
 		return err
 	}
 	op.Type = tmp.Type
+	op.Steps = nil // replace, not append to any prior steps
+	if tmp.Type != "" && tmp.Type != "seq" {
+		// a single operator of another type, treat as sequence with one step
+		op.Type, tmp.StepsRaw = "seq", []json.RawMessage{b}
+	}
 
 	for _, raw := range tmp.StepsRaw {
 		var step OpBase
-- 
2.43.0


From 7a8669d7125fe810c5605028b9acd5bcd73ccb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:32 +0000
Subject: [PATCH 092/105] fix: a file in the current directory with the name of
 the command, e.g. stack, was loaded as an additional input image

---
 cmd/nightlight/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/nightlight/main.go b/cmd/nightlight/main.go
index d04d5fe..d5319d8 100644
--- a/cmd/nightlight/main.go
+++ b/cmd/nightlight/main.go
@@ -277,7 +277,7 @@ Flags:
 
 	// glob filename arguments into an opLoadMany operator
 	var err error
-	opLoadMany := ops.NewOpLoadMany(args)
+	opLoadMany := ops.NewOpLoadMany(args[1:])
 
 	// parse preprocessing flags into preprocessing sequence operator
 	opDebayer := pre.NewOpDebayer(*debayer, *cfa)
-- 
2.43.0


From cec518f2d25ce77ec7e61a265bacb86645ea6d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:32 +0000
Subject: [PATCH 093/105] fix: an unknown command exited with status zero as if
 it had succeeded

---
 cmd/nightlight/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/nightlight/main.go b/cmd/nightlight/main.go
index d5319d8..5eaccc5 100644
--- a/cmd/nightlight/main.go
+++ b/cmd/nightlight/main.go
@@ -416,7 +416,7 @@ Flags:
 	default:
 		fmt.Fprintf(logWriter, "Unknown command '%s'\n\n", args[0])
 		flag.Usage()
-		return
+		os.Exit(-1)
 	}
 
 	if err != nil {
-- 
2.43.0


From 4cc65624048249184f7368c99ff6273d9525ffa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:33 +0000
Subject: [PATCH 094/105] fix: the -lsEst flag was ignored when running a JSON
 job, unlike in all other commands

---
 cmd/nightlight/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/nightlight/main.go b/cmd/nightlight/main.go
index 5eaccc5..0e9cf35 100644
--- a/cmd/nightlight/main.go
+++ b/cmd/nightlight/main.go
@@ -227,7 +227,7 @@ Flags:
 		flag.Usage()
 		return
 	}
-	if args[0] == "stats" || args[0] == "stack" || args[0] == "stretch" || args[0] == "rgb" || args[0] == "lrgb" {
+	if args[0] == "stats" || args[0] == "stack" || args[0] == "stretch" || args[0] == "rgb" || args[0] == "lrgb" || args[0] == "run" {
 		fmt.Fprintf(logWriter, "Using location and scale estimator %d\n", *lsEst)
 		stats.LSEstimator = stats.LSEstimatorMode(*lsEst)
 	}
-- 
2.43.0


From a20b9c3748fa9d827a9f5219672cc11004599a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:08 +0000
Subject: [PATCH 095/105] fix: IKSS estimation looped forever on images with
 NaN or infinite pixels

---
 internal/stats/stats.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/stats/stats.go b/internal/stats/stats.go
index 4c13e6a..48130e9 100644
--- a/internal/stats/stats.go
+++ b/internal/stats/stats.go
@@ -577,7 +577,7 @@ func IKSS(data []float32, epsilon float32, e float32) (location, scale float32)
 		if s < epsilon {
 			return m, 0
 		}
-		if s0-s < s*epsilon {
+		if !(s0-s >= s*epsilon) { // also ends if there are pixels which are no numbers or infinite
 			return m, 0.991 * s
 		}
 		s0 = s
-- 
2.43.0


From 1f1de575c62ea4e93aca914ac92b71b14ea06e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:55 +0000
Subject: [PATCH 096/105] fix: stretching an image which is mostly white gave
 NaN pixels

---
 internal/fits/pixelops.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/fits/pixelops.go b/internal/fits/pixelops.go
index fff539d..1f9a3ac 100644
--- a/internal/fits/pixelops.go
+++ b/internal/fits/pixelops.go
@@ -667,6 +667,7 @@ func (f* Image) ShiftBlackToMove(before, after float32) {
     //   after = (before - black) / (1 - black)
     // Then solving for black yields the following
     black:=(after-before)/(after-1)
+    if black==1 || after==1 { return } // white stays white wherever the black point is
     scale:=1/(1-black)
 	data:=f.Data
 	for i, d:=range data {
@@ -681,6 +682,7 @@ func (f* Image) ShiftBlackToMoveChannel(chanID int, before, after float32) {
     //   after = (before - black) / (1 - black)
     // Then solving for black yields the following
     black:=(after-before)/(after-1)
+    if black==1 || after==1 { return } // white stays white wherever the black point is
     scale:=1/(1-black)
     l:=len(f.Data)/3
 	data:=f.Data[chanID*l:(chanID+1)*l]
-- 
2.43.0


From 3dd338925857f6e81df51f52e08d2aebe78d0b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:12 +0000
Subject: [PATCH 097/105] fix: a luminance channel which is not normalized,
 e.g. a stack of frames, turned LRGB images white

---
 internal/ops/rgb/rgb.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/ops/rgb/rgb.go b/internal/ops/rgb/rgb.go
index c1bd889..8e5c656 100644
--- a/internal/ops/rgb/rgb.go
+++ b/internal/ops/rgb/rgb.go
@@ -78,6 +78,12 @@ func (op *OpRGBCombine) Apply(fs []*fits.Image, c *ops.Context) (fOut *fits.Imag
 	}
 	if len(fs) == 4 {
 		c.LumFrame = fs[3]
+		// like the color channels, luminance must be normalized to [0,1] for color space conversion
+		if min, max := fs[3].Stats.Min(), fs[3].Stats.Max(); max > min && (min < 0 || max > 1) {
+			c.LumFrame = fits.NewImageFromImage(fs[3])
+			copy(c.LumFrame.Data, fs[3].Data)
+			c.LumFrame.Normalize()
+		}
 	}
 	fmt.Fprintf(c.Log, "\nCombining RGB color channels...\n")
 	fOut = fits.NewRGBFromChannels(fs[:3], c.AlignStars, c.AlignHFR, c.Log)
-- 
2.43.0


From cb1b8829ca2fc5d9802a70440cf8a1a07bc5502c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:53 +0000
Subject: [PATCH 098/105] fix: histogram based estimation crashed on images
 with NaN or infinite pixels

---
 internal/stats/stats.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/stats/stats.go b/internal/stats/stats.go
index 48130e9..d333788 100644
--- a/internal/stats/stats.go
+++ b/internal/stats/stats.go
@@ -676,8 +676,11 @@ func HistogramScaleLoc(data []float32, min, max float32, numBins uint32) (loc, s
 	bins := make([]uint32, numBins)
 	valueToBin := float32(numBins-1) / (max - min)
 	for _, d := range data {
-		bin := uint32(((d - min) * valueToBin) + 0.5)
-		bins[bin]++
+		bin := ((d - min) * valueToBin) + 0.5
+		if !(bin >= 0 && bin < float32(numBins)) { // skip NaN and infinite values, which also distort minimum and maximum
+			continue
+		}
+		bins[uint32(bin)]++
 	}
 
 	// find inner peak (avoid edges which may be distorted by clipping)
-- 
2.43.0


From 81d932ef097877d871fe26ec21502185a49cc421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:58 +0000
Subject: [PATCH 099/105] fix: serving with an absolute path as new root
 directory failed, as the working directory was looked up inside it

---
 internal/rest/sandbox_unix.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/rest/sandbox_unix.go b/internal/rest/sandbox_unix.go
index ac72f50..6738f45 100644
--- a/internal/rest/sandbox_unix.go
+++ b/internal/rest/sandbox_unix.go
@@ -34,7 +34,7 @@ func MakeSandbox(chroot string, setuid int) {
 		if err:=syscall.Chroot(chroot); err!=nil {
 			panic(fmt.Sprintf("error chroot(%s): %s\n", chroot, err.Error()))
 		}
-		if err:=os.Chdir(chroot); err!=nil {
+		if err:=os.Chdir("/"); err!=nil { // path is relative to the new root
 			panic(fmt.Sprintf("error chdir(%s): %s\n", chroot, err.Error()))
 		}
 	}
-- 
2.43.0


From 0254e4bdb1a53c151c8cc5f1816005ea4cf58e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:31 +0000
Subject: [PATCH 100/105] fix: the serve command reported success when it could
 not listen on its port

---
 cmd/nightlight/main.go | 2 +-
 internal/rest/serve.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/nightlight/main.go b/cmd/nightlight/main.go
index 0e9cf35..a5e787e 100644
--- a/cmd/nightlight/main.go
+++ b/cmd/nightlight/main.go
@@ -300,7 +300,7 @@ Flags:
 	switch args[0] {
 	case "serve":
 		rest.MakeSandbox(*chroot, int(*setuid))
-		rest.Serve(int(*port), int(*stMemory))
+		err = rest.Serve(int(*port), int(*stMemory))
 
 	case "stats":
 		opSeq := ops.NewOpSequence(opLoadMany, opPreProc)
diff --git a/internal/rest/serve.go b/internal/rest/serve.go
index 0bf4081..a3ad6af 100755
--- a/internal/rest/serve.go
+++ b/internal/rest/serve.go
@@ -34,7 +34,7 @@ import (
 var stMemory int // memory limit in MB for stacking. Not thread safe
 
 // Serve APIs and static files via HTTP
-func Serve(port, theStMemory int) {
+func Serve(port, theStMemory int) error {
 	stMemory = theStMemory
 
 	r := gin.Default()
@@ -59,7 +59,7 @@ func Serve(port, theStMemory int) {
 			v1.StaticFS("/files", http.Dir("."))
 		}
 	}
-	r.Run(fmt.Sprintf(":%d", port)) // listen and serve on 0.0.0.0:port
+	return r.Run(fmt.Sprintf(":%d", port)) // listen and serve on 0.0.0.0:port
 }
 
 func CORSMiddleware() gin.HandlerFunc {
-- 
2.43.0


From 275f28b81d2c94f7b8b44f504e9bf3efc0945384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:37 +0000
Subject: [PATCH 101/105] fix: jobs from the web editor with debanding, binning
 or channel scaling were refused, as numbers were sent as strings

---
 web/js/codegen.js | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/web/js/codegen.js b/web/js/codegen.js
index 0aa1b36..95b4b04 100644
--- a/web/js/codegen.js
+++ b/web/js/codegen.js
@@ -70,11 +70,11 @@ Json["nl_pre_debayer"]=function(block) {
 }
 
 Json["nl_pre_debandVert"]=function(block) {
-  return createJsonObject(block, "debandVert", ["percentile", "window"], null, null);
+  return createJsonObject(block, "debandVert", ["percentile"], ["window"], null);
 }
 
 Json["nl_pre_debandHoriz"]=function(block) {
-  return createJsonObject(block, "debandHoriz", ["percentile", "window"], null, null);
+  return createJsonObject(block, "debandHoriz", ["percentile"], ["window"], null);
 }
 
 Json["nl_pre_scaleOffset"]=function(block) {
@@ -82,7 +82,7 @@ Json["nl_pre_scaleOffset"]=function(block) {
 }
 
 Json["nl_pre_bin"]=function(block) {
-  return createJsonObject(block, "bin", ["binSize"], null, null);
+  return createJsonObject(block, "bin", null, ["binSize"], null);
 }
 
 Json["nl_pre_backExtract"]=function(block) {
@@ -162,7 +162,7 @@ Json["nl_hsl_hslApplyLum"]=function(block) {
 }
 
 Json["nl_hsl_hslScaleOffsetChannel"]=function(block) {
-  return createJsonObject(block, "hslScaleOffsetChannel", ["channelID", "scale", "offset"], null);
+  return createJsonObject(block, "hslScaleOffsetChannel", ["scale", "offset"], ["channelID"]);
 }
 
 Json["nl_hsl_hslNeutralizeBackground"]=function(block) {
-- 
2.43.0


From 93bbf2b06e228d5d7d192feaa4c7a3472f4e1afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:37 +0000
Subject: [PATCH 102/105] fix: the grid size for background extraction selected
 in the web editor was ignored

---
 web/js/blocks.js  | 2 +-
 web/js/codegen.js | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/web/js/blocks.js b/web/js/blocks.js
index 19b395c..11fb4ae 100644
--- a/web/js/blocks.js
+++ b/web/js/blocks.js
@@ -264,7 +264,7 @@ Blockly.defineBlocksWithJsonArray([
     "args0": [
       {
         "type": "field_dropdown",
-        "name": "grid",
+        "name": "gridSize",
         "options" : [
           [ "0", "0"],
           [ "32", "32"],
diff --git a/web/js/codegen.js b/web/js/codegen.js
index 95b4b04..5ee3014 100644
--- a/web/js/codegen.js
+++ b/web/js/codegen.js
@@ -86,7 +86,7 @@ Json["nl_pre_bin"]=function(block) {
 }
 
 Json["nl_pre_backExtract"]=function(block) {
-  return createJsonObject(block, "backExtract", ["gridSize", "hfrFactor", "sigma", "clip"], null, ["save"]);
+  return createJsonObject(block, "backExtract", ["hfrFactor", "sigma", "clip"], ["gridSize"], ["save"]);
 }
 
 Json["nl_pre_starDetect"]=function(block) {
-- 
2.43.0


From 856c529f71fa57ba6a1752e2146c82b933bcf6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:38 +0000
Subject: [PATCH 103/105] fix: stacking modes linear fit and automatic selected
 in the web editor ran other modes

---
 web/js/blocks.js | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/web/js/blocks.js b/web/js/blocks.js
index 11fb4ae..3dc6e86 100644
--- a/web/js/blocks.js
+++ b/web/js/blocks.js
@@ -503,8 +503,9 @@ Blockly.defineBlocksWithJsonArray([
           [ "mean (no sigmas)", "1"],
           [ "sigma-clipped mean", "2"],
           [ "winsorized mean", "3"],
-          [ "linear regression fit", "4"],
-          [ "automatic mode selection", "5"],
+          [ "MAD sigma-clipped mean", "4"],
+          [ "linear regression fit", "5"],
+          [ "automatic mode selection", "6"],
         ]
       }
     ],
-- 
2.43.0


From 5f614ce6c0ed3daa3f2aa12df49b6906f56dcced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:38 +0000
Subject: [PATCH 104/105] fix: jobs from the web editor with reference frame
 selection were refused, as mode and target were not sent as the server
 expects them

---
 web/js/blocks.js  | 14 +++++++++++---
 web/js/codegen.js |  9 ++++++++-
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/web/js/blocks.js b/web/js/blocks.js
index 3dc6e86..3ab0e39 100644
--- a/web/js/blocks.js
+++ b/web/js/blocks.js
@@ -387,8 +387,16 @@ Blockly.defineBlocksWithJsonArray([
   {
     "type": "nl_ref_selectReference",
     "tooltip": "Select reference frame for histogram normalization and alignment",
-    "message0": "Select reference frame by %1",
+    "message0": "Select %1 reference frame by %2",
     "args0": [
+      {
+        "type": "field_dropdown",
+        "name": "target",
+        "options" : [
+          [ "alignment", "0"],
+          [ "histogram matching", "1"]
+        ]
+      },
       {
         "type": "field_dropdown",
         "name": "mode",
@@ -396,12 +404,12 @@ Blockly.defineBlocksWithJsonArray([
           [ "highest # stars / HFR (for lights)", "0"],
           [ "median skyfog location (for flats)", "1"],
           [ "given filename", "2"],
-          [ "given in-memory image", "3"],
+          [ "given image ID", "3"],
           [ "Lum if present, else best RGB", "4"]
         ]
       }
     ],
-    "message1": "with optional filename %1",
+    "message1": "with optional filename or image ID %1",
     "args1": [
       {
         "type": "field_input",
diff --git a/web/js/codegen.js b/web/js/codegen.js
index 5ee3014..c5a12dd 100644
--- a/web/js/codegen.js
+++ b/web/js/codegen.js
@@ -94,7 +94,14 @@ Json["nl_pre_starDetect"]=function(block) {
 }
 
 Json["nl_ref_selectReference"]=function(block) {
-  return createJsonObject(block, "selectRef", ["fileName",], ["mode"], ["starDetect"]);
+  var res=JSON.parse(createJsonObject(block, "selectRef", null, ["target"], ["starDetect"]));
+  switch(block.getFieldValue("mode")) {
+    case "0": res["mode"]="%starsHFR"; break;
+    case "1": res["mode"]="%location"; break;
+    case "4": res["mode"]="%rgb";      break;
+    default:  res["mode"]=block.getFieldValue("fileName"); // file name or image ID
+  }
+  return JSON.stringify(res);
 }
 
 Json["nl_post_matchHistogram"]=function(block) {
-- 
2.43.0


From 3b0a4c17f669216b516f37dd41a0a07ab56c5ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:03 +0000
Subject: [PATCH 105/105] fix: jobs run from the web editor went to port 8080
 of the local machine whichever server had delivered the page

---
 web/index.html | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web/index.html b/web/index.html
index 076d381..53dbe85 100644
--- a/web/index.html
+++ b/web/index.html
@@ -116,7 +116,7 @@
           body: code,
         };
 
-        fetch('http://localhost:8080/api/v1/job', options)
+        fetch('/api/v1/job', options)
           .then(processChunkedResponse)
           .then(onChunkedResponseComplete)
           .catch(onChunkedResponseError)
-- 
2.43.0

