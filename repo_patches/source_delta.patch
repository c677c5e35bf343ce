From e1e6fa3bef265aed6336f1b8102bbf6243d9aac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:46:06 +0000
Subject: [PATCH 01/36] fix: make the BMP reader decode palette, RLE, bit-field
 and V4/V5 images correctly

ReadColorMap always reported failure, so every image with up to 8 bits per
pixel came back empty without a message.  RLE data went to a buffer that was
thrown away.  V4 and V5 headers overflowed the header buffer.  Grey palettes
were applied twice.  Truncated or unreadable image data was returned as if it
were complete.  All of these now give the stored image or a fatal message.
---
 src/input-bmp.c | 166 ++++++++++++++++++++++++++++--------------------
 1 file changed, 98 insertions(+), 68 deletions(-)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index f48a6fb..089faff 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -48,11 +48,11 @@ struct Bitmap_File_Head_Struct {
   unsigned short zzHotY;        /* 08 */
   unsigned long bfOffs;         /* 0A */
   unsigned long biSize;         /* 0E */
-} Bitmap_File_Head;
+};
 
 struct Bitmap_Head_Struct {
-  unsigned long biWidth;        /* 12 */
-  unsigned long biHeight;       /* 16 */
+  long biWidth;                 /* 12 */
+  long biHeight;                /* 16 */
   unsigned short biPlanes;      /* 1A */
   unsigned short biBitCnt;      /* 1C */
   unsigned long biCompr;        /* 1E */
@@ -62,7 +62,7 @@ struct Bitmap_Head_Struct {
   unsigned long biClrUsed;      /* 2E */
   unsigned long biClrImp;       /* 32 */
   unsigned long masks[4];       /* 36 */
-} Bitmap_Head;
+};
 
 typedef struct
 {
@@ -131,13 +131,16 @@ static long ToL(unsigned char *);
 static short ToS(unsigned char *);
 static int ReadColorMap(FILE *, unsigned char[256][3], int, int, int *, at_exception_type *);
 static int ReadChannelMasks(unsigned long *, Bitmap_Channel *, unsigned int);
-static unsigned char *ReadImage(FILE *, int, int, unsigned char[256][3], int, int, int, int, int, const Bitmap_Channel *, at_exception_type *);
+static unsigned char *ReadImage(FILE *, int, int, bool, unsigned char[256][3], int, int, int, int, const Bitmap_Channel *, at_exception_type *);
 
 at_bitmap input_bmp_reader(char * filename, at_input_opts_type * opts, at_msg_func msg_func, void * msg_data, void * user_data)
 {
   FILE *fd;
-  unsigned char buffer[64];
-  int ColormapSize, rowbytes, Maps, Grey;
+  struct Bitmap_File_Head_Struct Bitmap_File_Head;
+  struct Bitmap_Head_Struct Bitmap_Head;
+  unsigned char buffer[124];
+  int ColormapSize, rowbytes, Maps, Grey = 0;
+  bool topdown;
   unsigned char ColorMap[256][3];
   at_bitmap image = at_bitmap_init(0, 0, 0, 1);
   unsigned char *image_storage;
@@ -145,6 +148,9 @@ at_bitmap input_bmp_reader(char * filename, at_input_opts_type * opts, at_msg_fu
   char magick[2];
   Bitmap_Channel masks[4];
 
+  memset(ColorMap, 0, sizeof(ColorMap));
+  memset(masks, 0, sizeof(masks));
+
   fd = fopen(filename, "rb");
 
   if (!fd) {
@@ -217,8 +223,8 @@ at_bitmap input_bmp_reader(char * filename, at_input_opts_type * opts, at_msg_fu
       goto cleanup;
     }
 
-    Bitmap_Head.biWidth = ToS(&buffer[0x00]);   /* 12 */
-    Bitmap_Head.biHeight = ToS(&buffer[0x02]);  /* 14 */
+    Bitmap_Head.biWidth = (unsigned short)ToS(&buffer[0x00]);   /* 12 */
+    Bitmap_Head.biHeight = (unsigned short)ToS(&buffer[0x02]);  /* 14 */
     Bitmap_Head.biPlanes = ToS(&buffer[0x04]);  /* 16 */
     Bitmap_Head.biBitCnt = ToS(&buffer[0x06]);  /* 18 */
     Bitmap_Head.biCompr = 0;
@@ -230,7 +236,7 @@ at_bitmap input_bmp_reader(char * filename, at_input_opts_type * opts, at_msg_fu
     Bitmap_Head.masks[2] = 0;
     Bitmap_Head.masks[3] = 0;
 
-    memset(masks, 0, sizeof(masks));
+    setMasksDefault(Bitmap_Head.biBitCnt, masks);
     Maps = 3;
   } else if (Bitmap_File_Head.biSize == 40) { /* Windows 3.x */
     if (!ReadOK(fd, buffer, 36))
@@ -256,10 +262,9 @@ at_bitmap input_bmp_reader(char * filename, at_input_opts_type * opts, at_msg_fu
     Bitmap_Head.masks[3] = 0;
       
     Maps = 4;
-    memset(masks, 0, sizeof(masks));
     if (Bitmap_Head.biCompr == BI_BITFIELDS)
     {
-      if (!ReadOK(fd, buffer, 3 * sizeof(unsigned long)))
+      if (!ReadOK(fd, buffer, 3 * 4))
       {
         LOG("Error reading BMP file header\n");
         at_exception_fatal(&exp, "Error reading BMP file header");
@@ -313,7 +318,10 @@ at_bitmap input_bmp_reader(char * filename, at_input_opts_type * opts, at_msg_fu
 	  Bitmap_Head.masks[3] = ToL(&buffer[0x30]);        /* 42 */
 
 	  Maps = 4;
-	  ReadChannelMasks(&Bitmap_Head.masks[0], masks, 4);
+	  if (Bitmap_Head.biCompr == BI_BITFIELDS)
+	    ReadChannelMasks(&Bitmap_Head.masks[0], masks, 4);
+	  else
+	    setMasksDefault(Bitmap_Head.biBitCnt, masks);
 	}
   else if (Bitmap_File_Head.biSize == 108 ||
   Bitmap_File_Head.biSize == 124)
@@ -391,6 +399,8 @@ at_bitmap input_bmp_reader(char * filename, at_input_opts_type * opts, at_msg_fu
 	  ColormapSize = Bitmap_Head.biClrUsed = 1 << Bitmap_Head.biBitCnt;
   }
 
+  if (ColormapSize < 0)
+	  ColormapSize = 0;
   if (ColormapSize > 256)
 	  ColormapSize = 256;
 
@@ -407,7 +417,7 @@ at_bitmap input_bmp_reader(char * filename, at_input_opts_type * opts, at_msg_fu
   /* biHeight may be negative, but -2147483648 is dangerous because:
 	 -2147483648 == -(-2147483648) */
   if (Bitmap_Head.biWidth < 0 ||
-	  Bitmap_Head.biHeight == -2147483648)
+	  Bitmap_Head.biHeight == -2147483647L - 1)
   {
 	  LOG("%s is not a valid BMP file", filename);
 	  at_exception_fatal(&exp, "bmp: invalid input file");
@@ -433,13 +443,26 @@ at_bitmap input_bmp_reader(char * filename, at_input_opts_type * opts, at_msg_fu
   /* use divisions in comparisons to avoid type overflows */
 
   if (((unsigned long)Bitmap_Head.biWidth) > (unsigned int)0x7fffffff / Bitmap_Head.biBitCnt ||
-	  ((unsigned long)Bitmap_Head.biWidth) > ((unsigned int)0x7fffffff /abs(Bitmap_Head.biHeight)) / 4)
+	  ((unsigned long)Bitmap_Head.biWidth) > ((unsigned int)0x7fffffff /labs(Bitmap_Head.biHeight)) / 4)
   {
 	  LOG("%s is not a valid BMP file", filename);
 	  at_exception_fatal(&exp, "bmp: invalid input file");
 	  goto cleanup;
   }
 
+  /* a negative height means that the rows are stored top-down */
+  topdown = Bitmap_Head.biHeight < 0;
+  if (topdown)
+	  Bitmap_Head.biHeight = -Bitmap_Head.biHeight;
+
+  /* an at_bitmap cannot hold anything larger */
+  if (Bitmap_Head.biWidth > 0xffff || Bitmap_Head.biHeight > 0xffff)
+  {
+	  LOG("%s is too large", filename);
+	  at_exception_fatal(&exp, "bmp: image too large");
+	  goto cleanup;
+  }
+
   /* Windows and OS/2 declare filler so that rows are a multiple of
    * word length (32 bits == 4 bytes)
    */
@@ -462,10 +485,16 @@ at_bitmap input_bmp_reader(char * filename, at_input_opts_type * opts, at_msg_fu
       goto cleanup;
   }
 
-  fseek(fd, Bitmap_File_Head.bfOffs, SEEK_SET);
+  if (fseek(fd, Bitmap_File_Head.bfOffs, SEEK_SET) != 0) {
+    LOG("Error seeking to the image data\n");
+    at_exception_fatal(&exp, "bmp: cannot seek to the image data");
+    goto cleanup;
+  }
   
   /* Get the Image and return the ID or -1 on error */
-  image_storage = ReadImage(fd, Bitmap_Head.biWidth, Bitmap_Head.biHeight, ColorMap, Bitmap_Head.biClrUsed, Bitmap_Head.biBitCnt, Bitmap_Head.biCompr, rowbytes, Grey, masks, &exp);
+  image_storage = ReadImage(fd, Bitmap_Head.biWidth, Bitmap_Head.biHeight, topdown, ColorMap, Bitmap_Head.biBitCnt, Bitmap_Head.biCompr, rowbytes, Grey, masks, &exp);
+  if (image_storage == NULL)
+    goto cleanup;
   image = at_bitmap_init(image_storage, (unsigned short)Bitmap_Head.biWidth, (unsigned short)Bitmap_Head.biHeight, Grey ? 1 : 3);
 cleanup:
   fclose(fd);
@@ -482,7 +511,7 @@ static int ReadColorMap(FILE * fd, unsigned char buffer[256][3], int number, int
     if (!ReadOK(fd, rgb, size)) {
       LOG("Bad colormap\n");
       at_exception_fatal(exp, "Bad colormap");
-      goto cleanup;
+      return 0;
     }
 
     /* Bitmap save the colors in another order! But change only once! */
@@ -492,8 +521,7 @@ static int ReadColorMap(FILE * fd, unsigned char buffer[256][3], int number, int
     buffer[i][2] = rgb[0];
     *grey = ((*grey) && (rgb[0] == rgb[1]) && (rgb[1] == rgb[2]));
   }
-cleanup:
-  return 0;
+  return 1;
 }
 
 static int
@@ -525,8 +553,9 @@ ReadChannelMasks(unsigned long       *tmp,
 			mask = mask >> 1;
 		}
 
-		masks[i].shiftin = offset;
-		masks[i].max_value = (float)((1 << nbits) - 1);
+		/* an empty mask selects nothing: its channel is 0 */
+		masks[i].shiftin = nbits ? offset : 0;
+		masks[i].max_value = nbits ? (float)((1ULL << nbits) - 1) : (float)1.0;
 
 #ifdef _DEBUG
 		LOG("Channel %d mask %08x in %d max_val %d\n",
@@ -537,17 +566,19 @@ ReadChannelMasks(unsigned long       *tmp,
 	return 0;
 }
 
-static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char cmap[256][3], int ncols, int bpp, int compression, int rowbytes, int Grey, const Bitmap_Channel * masks, at_exception_type * exp)
+static unsigned char *ReadImage(FILE * fd, int width, int height, bool topdown, unsigned char cmap[256][3], int bpp, int compression, int rowbytes, int Grey, const Bitmap_Channel * masks, at_exception_type * exp)
 {
   unsigned char v, n;
   int xpos = 0;
   int ypos = 0;
   unsigned char * image;
-  unsigned char *dest, *temp, *row_buf;
+  unsigned char *temp, *row_buf;
   long rowstride, channels;
   unsigned short rgb;
   int i, i_max, j;
   int total_bytes_read;
+  int rows_left = height;
+  bool complete = false;
   unsigned int px32;
 
   if (!(compression == BI_RGB ||
@@ -562,33 +593,12 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
   }
 
 
-  if (bpp >= 16) /* color image */
-    {
-      XMALLOC (image, width * height * 3 * sizeof (unsigned char));
-	  if (masks[3].mask != 0)
-	  {
-		  channels = 4;
-	  }
-	  else
-	  {
-		  channels = 3;
-	  }
-  }
-  else if (Grey) /* Grey image */
-    {
-      XMALLOC (image, width * height * 1 * sizeof (unsigned char));
-	  channels = 1;
-	}
-  else /* indexed image */
-	{
-      XMALLOC (image, width * height * 1 * sizeof (unsigned char));
-	  channels = 1;
-	}
+  channels = (bpp >= 16) ? 3 : 1; /* color image, or indexes into the colormap */
 
-  /* use XCALLOC to initialize the dest row_buf so that unspecified
+  /* use XCALLOC to initialize the image so that unspecified
 	 pixels in RLE bitmaps show up as the zeroth element in the palette.
   */
-  XCALLOC(dest, width * height * channels);
+  XCALLOC(image, width * height * channels);
   XMALLOC (row_buf, rowbytes); 
   rowstride = width * channels;
 
@@ -612,10 +622,9 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
 				  *(temp++) = ((px32 & masks[3].mask) >> masks[3].shiftin) * 255.0 / masks[3].max_value + 0.5;*/
 		  }
 
-		  if (ypos == 0)
-			  break;
-
 		  --ypos; /* next line */
+		  if (--rows_left == 0)
+			  break;
         }
     }
 	break;
@@ -632,6 +641,8 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
                *(temp++)= row_buf[xpos * 3];
             }
           --ypos; /* next line */
+          if (--rows_left == 0)
+            break;
         }
 	}
     break;
@@ -652,16 +663,16 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
 				  *(temp++) = ((rgb & masks[3].mask) >> masks[3].shiftin) * 255.0 / masks[3].max_value + 0.5;*/
 		  }
 
-		  if (ypos == 0)
-			  break;
-
 		  --ypos; /* next line */
+		  if (--rows_left == 0)
+			  break;
         }
     }
 	break;
 
   case 8:
   case 4:
+  case 2:
   case 1:
     {
       if (compression == 0)
@@ -672,15 +683,15 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
 		  {
 			temp = image + (ypos * rowstride) + (xpos * channels);
 			*temp = (v & (((1 << bpp) - 1) << (8 - (i*bpp)))) >> (8 - (i*bpp));
-			if (Grey)
-				*temp = cmap[*temp][0];
 		}
 
 		if (xpos == width)
 		  {
-		    ReadOK (fd, row_buf, rowbytes - 1 -
-                                                (width * bpp - 1) / 8);
+		    i = rowbytes - 1 - (width * bpp - 1) / 8;
+		    if (i > 0 && !ReadOK (fd, row_buf, i) && ypos > 0)
+		      break;
 		    ypos--;
+		    rows_left--;
 		    xpos = 0;
 
 		  }
@@ -718,10 +729,8 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
 			             ((unsigned char) j < (unsigned char) row_buf[0]));
 			             i++, xpos++, j++)
 			          {
-			            temp = dest + (ypos * rowstride) + (xpos * channels);
+			            temp = image + (ypos * rowstride) + (xpos * channels);
 			            *temp = (unsigned char) ((row_buf[1] & (((1<<bpp)-1) << (8 - (i * bpp)))) >> (8 - (i * bpp)));
-				        if (Grey)
-					      *temp = cmap[*temp][0];
 			          }
 		      }
 		  }
@@ -738,7 +747,7 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
 				if (!ReadOK(fd, &v, 1))
 				{
 					LOG("The bitmap ends unexpectedly.");
-					break;
+					goto incomplete;
 				} 
 
 				total_bytes_read++;
@@ -754,18 +763,16 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
 				while ((i <= i_max) && (xpos < width))
 				{
 					temp =
-						dest + (ypos * rowstride) + (xpos * channels);
+						image + (ypos * rowstride) + (xpos * channels);
 					*temp = (v >> (8 - (i*bpp))) & ((1 << bpp) - 1);
-					if (Grey)
-						*temp = cmap[*temp][0];
 					i++;
 					xpos++;
 				}
 			}
 
 			/* absolute mode runs are padded to 16-bit alignment */
-			if (total_bytes_read % 2)
-				fread(&v, 1, 1, fd);
+			if ((total_bytes_read % 2) && !ReadOK(fd, &v, 1))
+				goto incomplete;
 		}
 		if (((unsigned char) row_buf[0] == 0) && ((unsigned char) row_buf[1]==0))
 		  /* Line end */
@@ -776,6 +783,7 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
 		if (((unsigned char) row_buf[0]==0) && ((unsigned char) row_buf[1]==1))
 		  /* Bitmap end */
 		  {
+		    complete = true;
 		    break;
 		  }
 		if (((unsigned char) row_buf[0]==0) && ((unsigned char) row_buf[1]==2))
@@ -790,6 +798,8 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
 		    ypos -= (unsigned char) row_buf[1];
 		  }
 	    }
+	    if (ypos < 0)
+	      complete = true;
 	    break;
 	  }
     }
@@ -799,6 +809,27 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
 	break;
   }
 
+  if (rows_left > 0 && !complete)
+    {
+incomplete:
+      LOG("The bitmap ends unexpectedly.");
+      at_exception_fatal(exp, "bmp: the image data ends unexpectedly");
+      free(row_buf);
+      free(image);
+      return NULL;
+    }
+
+  if (topdown)
+    {
+      for (i = 0, j = height - 1; i < j; i++, j--)
+        for (xpos = 0; xpos < rowstride; xpos++)
+          {
+            v = image[i * rowstride + xpos];
+            image[i * rowstride + xpos] = image[j * rowstride + xpos];
+            image[j * rowstride + xpos] = v;
+          }
+    }
+
   if (bpp <= 8)
     {
       unsigned char *temp2, *temp3;
@@ -823,7 +854,6 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
   }
 
   free (row_buf);
-  free(dest);
   return image;
 }
 
-- 
2.43.0


From 03329e5ee1f3e42acb1f97aab2ab3f543587db59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:48:30 +0000
Subject: [PATCH 02/36] fix: make the PNG reader survive libpng errors and
 ignore alpha channels

A libpng error returned into the library and aborted the process.  Images
with an alpha channel were copied with the wrong pixel size.
---
 src/input-png.c | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/input-png.c b/src/input-png.c
index 6671bb6..83cc9e4 100644
--- a/src/input-png.c
+++ b/src/input-png.c
@@ -54,6 +54,8 @@ static void handle_error(png_structp png, const char * message)
   /* at_exception_fatal((at_exception_type *)at_png->error_ptr,
      "PNG error"); */
 
+  /* libpng must not continue after an error */
+  longjmp(png_jmpbuf(png), 1);
 }
 
 static void finalize_structs(png_structp png, png_infop info, png_infop end_info)
@@ -77,15 +79,11 @@ static int init_structs(png_structp * png, png_infop * info, png_infop * end_inf
     }
     finalize_structs(*png, *info, *end_info);
   }
+  LOG("PNG: cannot initialize libpng\n");
+  at_exception_fatal(exp, "PNG: cannot initialize libpng");
   return 0;
 }
 
-#define CHECK_ERROR() 	do { if (at_exception_got_fatal(exp))	\
-	  {							\
-	    result = 0;						\
-	    goto cleanup;					\
-	  } } while (0)
-
 static int load_image(at_bitmap * image, FILE * stream, at_input_opts_type * opts, at_exception_type * exp)
 {
   png_structp png;
@@ -93,15 +91,22 @@ static int load_image(at_bitmap * image, FILE * stream, at_input_opts_type * opt
   png_bytep *rows;
   unsigned short width, height, row;
   int pixel_size;
-  int result = 1;
 
   if (!init_structs(&png, &info, &end_info, exp))
     return 0;
 
+  /* handle_error comes back here */
+  if (setjmp(png_jmpbuf(png))) {
+    finalize_structs(png, info, end_info);
+    return 0;
+  }
+
   png_init_io(png, stream);
-  CHECK_ERROR();
 
-  png_read_png(png, info, PNG_TRANSFORM_STRIP_16 | PNG_TRANSFORM_PACKING | PNG_TRANSFORM_EXPAND, 0);
+  /* an at_bitmap cannot hold anything larger */
+  png_set_user_limits(png, 0xffff, 0xffff);
+
+  png_read_png(png, info, PNG_TRANSFORM_STRIP_16 | PNG_TRANSFORM_STRIP_ALPHA | PNG_TRANSFORM_PACKING | PNG_TRANSFORM_EXPAND, 0);
   rows = png_get_rows(png, info);
   
   width = (unsigned short)png_get_image_width(png, info);
@@ -116,9 +121,8 @@ static int load_image(at_bitmap * image, FILE * stream, at_input_opts_type * opt
   for (row = 0; row < height; row++, rows++) {
     memcpy(AT_BITMAP_PIXEL(image, row, 0), *rows, width * pixel_size * sizeof(unsigned char));
   }
-cleanup:
   finalize_structs(png, info, end_info);
-  return result;
+  return 1;
 }
 
 at_bitmap input_png_reader(char * filename, at_input_opts_type * opts, at_msg_func msg_func, void * msg_data, void * user_data)
-- 
2.43.0


From fec84e9b66cea3652ff919dcbe6742a59bed768b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:48:30 +0000
Subject: [PATCH 03/36] fix: make the TGA reader handle alpha, mirrored and
 damaged images

32-bit and grey-alpha pixels overflowed the bitmap, colormap indexes were not
bounded, the RLE state survived into the next read, small files were refused
because of a footer that is not used, and images mirrored in both directions
came out wrong.  Data that ends early is now a fatal error.
---
 src/input-tga.c | 125 ++++++++++++++++++------------------------------
 1 file changed, 47 insertions(+), 78 deletions(-)

diff --git a/src/input-tga.c b/src/input-tga.c
index 865897b..82ff88e 100644
--- a/src/input-tga.c
+++ b/src/input-tga.c
@@ -93,15 +93,6 @@ struct tga_header {
   unsigned char descriptor;
 };
 
-static struct {
-  unsigned int extensionAreaOffset;
-  unsigned int developerDirectoryOffset;
-#define TGA_SIGNATURE "trueVISION-XFILE"
-  char signature[16];
-  char dot;
-  char null;
-} tga_footer;
-
 static at_bitmap ReadImage(FILE * fp, struct tga_header *hdr, at_exception_type * exp);
 
 at_bitmap
@@ -117,19 +108,10 @@ input_tga_reader(char *filename, at_input_opts_type *opts, at_msg_func msg_func,
   if (!fp) {
     LOG("TGA: can't open \"%s\"\n", filename);
     at_exception_fatal(&exp, "Cannot open input tga file");
+    return image;
   }
 
-  /* Check the footer. */
-  if (fseek(fp, 0L - (sizeof(tga_footer)), SEEK_END)
-      || fread(&tga_footer, sizeof(tga_footer), 1, fp) != 1) {
-    LOG("TGA: Cannot read footer from \"%s\"\n", filename);
-    at_exception_fatal(&exp, "TGA: Cannot read footer");
-    goto cleanup;
-  }
-
-  /* Check the signature. */
-
-  if (fseek(fp, 0, SEEK_SET) || fread(&hdr, sizeof(hdr), 1, fp) != 1) {
+  if (fread(&hdr, sizeof(hdr), 1, fp) != 1) {
     LOG("TGA: Cannot read header from \"%s\"\n", filename);
     at_exception_fatal(&exp, "TGA: Cannot read header");
     goto cleanup;
@@ -159,9 +141,9 @@ static int std_fread(unsigned char *buf, int datasize, int nelems, FILE * fp)
 /* Decode a bufferful of file. */
 static int rle_fread(unsigned char *buf, int datasize, int nelems, FILE * fp)
 {
-  static unsigned char *statebuf = 0;
-  static int statelen = 0;
-  static int laststate = 0;
+  unsigned char *statebuf = 0;
+  int statelen = 0;
+  int laststate = 0;
 
   int j, k;
   int buflen, count, bytes;
@@ -193,6 +175,7 @@ static int rle_fread(unsigned char *buf, int datasize, int nelems, FILE * fp)
     /* Decode the next packet. */
     count = fgetc(fp);
     if (count == EOF) {
+      free(statebuf);
       return j / datasize;
     }
 
@@ -205,13 +188,14 @@ static int rle_fread(unsigned char *buf, int datasize, int nelems, FILE * fp)
     } else {
       /* Allocate the state buffer if we haven't already. */
       if (!statebuf)
-        statebuf = (unsigned char *)malloc(RLE_PACKETSIZE * datasize);
+        XMALLOC(statebuf, RLE_PACKETSIZE * datasize);
       p = statebuf;
     }
 
     if (count & RLE_PACKETSIZE) {
       /* Fill the buffer with the next value. */
       if (fread(p, datasize, 1, fp) != 1) {
+        free(statebuf);
         return j / datasize;
       }
 
@@ -224,6 +208,7 @@ static int rle_fread(unsigned char *buf, int datasize, int nelems, FILE * fp)
     } else {
       /* Read in the buffer. */
       if (fread(p, bytes, 1, fp) != 1) {
+        free(statebuf);
         return j / datasize;
       }
     }
@@ -235,6 +220,7 @@ static int rle_fread(unsigned char *buf, int datasize, int nelems, FILE * fp)
       j += bytes;
   }
 
+  free(statebuf);
   return nelems;
 }
 
@@ -242,12 +228,12 @@ static at_bitmap ReadImage(FILE * fp, struct tga_header *hdr, at_exception_type
 {
   at_bitmap image = at_bitmap_init(0, 0, 0, 1);
   unsigned char *buffer = NULL;
-  unsigned char *alphas = NULL;
+  unsigned char *data;
 
-  unsigned short width, height, bpp, abpp, pbpp, nalphas;
+  unsigned short width, height, bpp, abpp, pbpp;
   int j, k;
-  int pelbytes, wbytes, bsize, npels, pels;
-  int rle, badread;
+  int pelbytes, wbytes, bsize, npels, pels, channels;
+  int rle;
   int itype, dtype;
   unsigned char *cmap = NULL;
   int (*myfread) (unsigned char *, int, int, FILE *);
@@ -291,6 +277,12 @@ static at_bitmap ReadImage(FILE * fp, struct tga_header *hdr, at_exception_type
     at_exception_warning(exp, "TGA: alpha bit is increased");
   }
 
+  if (width == 0 || height == 0 || height > 0x7fffffff / 4 / width) {
+    LOG("TGA: invalid image size %d x %d\n", width, height);
+    at_exception_fatal(exp, "TGA: invalid image size");
+    return image;
+  }
+
   rle = 0;
   switch (hdr->imageType) {
   case TGA_TYPE_MAPPED_RLE:
@@ -367,7 +359,6 @@ static at_bitmap ReadImage(FILE * fp, struct tga_header *hdr, at_exception_type
     return image;
   }
 
-  nalphas = 0;
   if (hdr->colorMapType == 1) {
     /* We need to read in the colormap. */
     int index, colors;
@@ -384,23 +375,18 @@ static at_bitmap ReadImage(FILE * fp, struct tga_header *hdr, at_exception_type
 
     pelbytes = ROUNDUP_DIVIDE(hdr->colorMapSize, 8);
     colors = length + index;
-    cmap = (unsigned char *)malloc(colors * pelbytes);
-
-    /* Zero the entries up to the beginning of the map. */
-    memset(cmap, 0, index * pelbytes);
+    /* Every index a pixel can hold has an entry; those outside of the
+       map are zero. */
+    XCALLOC(cmap, MAX(colors, 256) * pelbytes);
 
     /* Read in the rest of the colormap. */
     if (fread(cmap + (index * pelbytes), pelbytes, length, fp) != length) {
       LOG("TGA: error reading colormap (ftell == %ld)\n", ftell(fp));
       at_exception_fatal(exp, "TGA: error reading colormap");
+      free(cmap);
       return image;
     }
 
-    /* If we have an alpha channel, then create a mapping to the alpha
-       values. */
-    if (pelbytes > 3)
-      alphas = (unsigned char *)malloc(colors);
-
     k = 0;
     for (j = 0; j < colors * pelbytes; j += pelbytes) {
       /* Swap from BGR to RGB. */
@@ -408,16 +394,8 @@ static at_bitmap ReadImage(FILE * fp, struct tga_header *hdr, at_exception_type
       cmap[k++] = cmap[j + 2];
       cmap[k++] = cmap[j + 1];
       cmap[k++] = tmp;
-
-      /* Take the alpha values out of the colormap. */
-      if (alphas)
-        alphas[nalphas++] = cmap[j + 3];
     }
-
-    /* If the last color was transparent, then omit it from the
-       mapping. */
-    if (nalphas && alphas[nalphas - 1] == 0)
-      colors--;
+    memset(cmap + k, 0, MAX(colors, 256) * pelbytes - k);
 
     /* Now pretend as if we only have 8 bpp. */
     abpp = 0;
@@ -433,46 +411,38 @@ static at_bitmap ReadImage(FILE * fp, struct tga_header *hdr, at_exception_type
 
   /* Maybe we need to reverse the data. */
   if (horzrev || vertrev)
-    buffer = (unsigned char *)malloc(width * height * pelbytes * sizeof(unsigned char));
+    XMALLOC(buffer, width * height * pelbytes * sizeof(unsigned char));
   if (rle)
     myfread = rle_fread;
   else
     myfread = std_fread;
 
   wbytes = width * pelbytes;
-  badread = 0;
 
   npels = width * height;
   bsize = wbytes * height;
 
-  /* Suck in the data one height at a time. */
-  if (badread)
-    pels = 0;
-  else
-    pels = (*myfread) (image.bitmap, bpp, npels, fp);
+  /* Suck in the data. */
+  XMALLOC(data, npels * bpp);
+  pels = (*myfread) (data, bpp, npels, fp);
 
   if (pels != npels) {
-    if (!badread) {
-      /* Probably premature end of file. */
-      LOG("TGA: error reading (ftell == %ld)\n", ftell(fp));
-      at_exception_warning(exp, "TGA: eroor reading file");
-      badread = 1;
-    }
-
-    /* Fill the rest of this tile with zeros. */
-    memset(image.bitmap + (pels * bpp), 0, ((npels - pels) * bpp));
-  }
-  /* If we have indexed alphas, then set them. */
-  if (nalphas) {
-    /* Start at the end of the buffer, and work backwards. */
-    k = (npels - 1) * bpp;
-    for (j = bsize - pelbytes; j >= 0; j -= pelbytes) {
-      /* Find the alpha for this index. */
-      image.bitmap[j + 1] = alphas[image.bitmap[k]];
-      image.bitmap[j] = image.bitmap[k--];
-    }
+    /* Probably premature end of file. */
+    LOG("TGA: error reading (ftell == %ld)\n", ftell(fp));
+    at_exception_fatal(exp, "TGA: error reading file");
+    free(data);
+    free(buffer);
+    free(cmap);
+    free(image.bitmap);
+    return at_bitmap_init(0, 0, 0, 1);
   }
 
+  /* Keep the color or index of each pixel and leave its alpha value out. */
+  channels = (itype == RGB) ? 3 : 1;
+  for (j = 0; j < npels; j++)
+    memcpy(image.bitmap + j * channels, data + j * bpp, channels);
+  free(data);
+
   if (itype == GRAY)
     for (j = bsize / 3 - 1; j >= 0; j -= 1) {
       /* Find the alpha for this index. */
@@ -492,11 +462,11 @@ static at_bitmap ReadImage(FILE * fp, struct tga_header *hdr, at_exception_type
 
   if (horzrev || vertrev) {
     unsigned char *tmp;
-    if (vertrev) {
+    if (vertrev && !horzrev) {
       /* We need to mirror only vertically. */
       for (j = 0; j < bsize; j += wbytes)
         memcpy(buffer + j, image.bitmap + bsize - (j + wbytes), wbytes);
-    } else if (horzrev) {
+    } else if (horzrev && !vertrev) {
       /* We need to mirror only horizontally. */
       for (j = 0; j < bsize; j += wbytes)
         for (k = 0; k < wbytes; k += pelbytes)
@@ -526,7 +496,8 @@ static at_bitmap ReadImage(FILE * fp, struct tga_header *hdr, at_exception_type
     int xpos, ypos;
 
     temp2 = temp = image.bitmap;
-    image.bitmap = temp3 = (unsigned char *)malloc(width * height * 3 * sizeof(unsigned char));
+    XMALLOC(image.bitmap, width * height * 3 * sizeof(unsigned char));
+    temp3 = image.bitmap;
 
     for (ypos = 0; ypos < height; ypos++) {
       for (xpos = 0; xpos < width; xpos++) {
@@ -540,7 +511,5 @@ static at_bitmap ReadImage(FILE * fp, struct tga_header *hdr, at_exception_type
     free(cmap);
   }
 
-  free(alphas);
-
   return image;
 }                               /* read_image */
-- 
2.43.0


From e5b39743085fb39df7b383148fa590266dbdf6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:56:09 +0000
Subject: [PATCH 04/36] fix: make the PNM reader decode and reject images
 correctly

Tokens of 512 bytes overflowed their buffer, sizes above 65535 overflowed the
bitmap, the last number of a text image was lost at the end of the file or at
a 4096 byte boundary, maxval 1 was read as a bitmap, samples above maxval
overflowed, and a file that ended early gave a partial or wrong image.
---
 src/input-pnm.c | 72 +++++++++++++++++++++++++++++++------------------
 1 file changed, 46 insertions(+), 26 deletions(-)

diff --git a/src/input-pnm.c b/src/input-pnm.c
index 6d34a83..be126d8 100644
--- a/src/input-pnm.c
+++ b/src/input-pnm.c
@@ -128,7 +128,7 @@ input_pnm_reader(char *filename, at_input_opts_type *opts, at_msg_func msg_func,
   }
 
   /* allocate the necessary structures */
-  pnminfo = (PNMInfo *) malloc(sizeof(PNMInfo));
+  XCALLOC(pnminfo, sizeof(PNMInfo));
 
   scan = NULL;
   /* set error handling */
@@ -188,6 +188,13 @@ input_pnm_reader(char *filename, at_input_opts_type *opts, at_msg_func msg_func,
     goto cleanup;
   }
 
+  /* an at_bitmap cannot hold anything larger */
+  if (pnminfo->xres > 0xffff || pnminfo->yres > 0xffff) {
+    LOG("pnm filter: image too large\n");
+    at_exception_fatal(&excep, "pnm filter: image too large");
+    goto cleanup;
+  }
+
   if (pnminfo->np != 0) {       /* pbm's don't have a maxval field */
     pnmscanner_gettoken(scan, (unsigned char *)buf, BUFLEN);
     if (pnmscanner_eof(scan)) {
@@ -207,6 +214,14 @@ input_pnm_reader(char *filename, at_input_opts_type *opts, at_msg_func msg_func,
 
   bitmap = at_bitmap_init(NULL, (unsigned short)pnminfo->xres, (unsigned short)pnminfo->yres, (pnminfo->np) ? (pnminfo->np) : 1);
   pnminfo->loader(scan, pnminfo, AT_BITMAP_BITS(&bitmap), &excep);
+  if (ferror(fd) && !at_exception_got_fatal(&excep)) {
+    LOG("pnm filter: error reading file\n");
+    at_exception_fatal(&excep, "pnm filter: error reading file");
+  }
+  if (at_exception_got_fatal(&excep)) {
+    free(bitmap.bitmap);
+    bitmap = at_bitmap_init(NULL, 0, 0, 0);
+  }
 
 cleanup:
   /* Destroy the scanner */
@@ -221,6 +236,16 @@ cleanup:
   return (bitmap);
 }
 
+/* Scale a sample to 0..255 */
+static unsigned char pnm_normalize(int value, int maxval)
+{
+  if (value < 0)
+    value = 0;
+  if (value > maxval)
+    value = maxval;
+  return (unsigned char)(255.0 * (double)value / (double)maxval);
+}
+
 static void pnm_load_ascii(PNMScanner * scan, PNMInfo * info, unsigned char *data, at_exception_type * excep)
 {
   unsigned char *d;
@@ -243,27 +268,21 @@ static void pnm_load_ascii(PNMScanner * scan, PNMInfo * info, unsigned char *dat
   for (i = 0; i < scanlines; i++)
     for (x = 0; x < info->xres; x++) {
       for (b = 0; b < np; b++) {
-        /* Truncated files will just have all 0's at the end of the images */
-        if (pnmscanner_eof(scan)) {
-          LOG("pnm filter: premature end of file\n");
-          at_exception_fatal(excep, "pnm filter: premature end of file");
-          return;
-        }
         if (info->np)
           pnmscanner_gettoken(scan, (unsigned char *)buf, BUFLEN);
         else
           pnmscanner_getsmalltoken(scan, (unsigned char *)buf);
-        switch (info->maxval) {
-        case 255:
-          d[b] = (unsigned char)(isdigit(*buf) ? atoi(buf) : 0);
-          break;
-        case 1:
-          d[b] = (*buf == '0') ? 0xff : 0x00;
-          break;
-        default:
-          d[b] = (unsigned char)(255.0 * (((double)(isdigit(*buf) ? atoi(buf) : 0))
-                                          / (double)(info->maxval)));
+        if (*buf == '\0') {
+          LOG("pnm filter: premature end of file\n");
+          at_exception_fatal(excep, "pnm filter: premature end of file");
+          return;
         }
+        if (info->np == 0)
+          d[b] = (*buf == '0') ? 0xff : 0x00;
+        else if (info->maxval == 255)
+          d[b] = (unsigned char)(isdigit(*buf) ? atoi(buf) : 0);
+        else
+          d[b] = pnm_normalize(isdigit(*buf) ? atoi(buf) : 0, info->maxval);
       }
 
       d += np;
@@ -293,7 +312,7 @@ static void pnm_load_raw(PNMScanner * scan, PNMInfo * info, unsigned char *data,
 
     if (info->maxval != 255) {  /* Normalize if needed */
       for (x = 0; x < info->xres * info->np; x++)
-        d[x] = (unsigned char)(255.0 * (double)(d[x]) / (double)(info->maxval));
+        d[x] = pnm_normalize(d[x], info->maxval);
     }
 
     d += info->xres * info->np;
@@ -312,7 +331,7 @@ static void pnm_load_rawpbm(PNMScanner * scan, PNMInfo * info, unsigned char *da
 
   fd = pnmscanner_fd(scan);
   rowlen = (unsigned int)ceil((double)(info->xres) / 8.0);
-  buf = (unsigned char *)malloc(rowlen * sizeof(unsigned char));
+  XMALLOC(buf, rowlen * sizeof(unsigned char));
 
   start = 0;
   end = info->yres;
@@ -372,7 +391,7 @@ static void pnmscanner_destroy(PNMScanner * s)
  */
 static void pnmscanner_createbuffer(PNMScanner * s, unsigned int bufsize)
 {
-  s->inbuf = (char *)malloc(sizeof(char) * bufsize);
+  XMALLOC(s->inbuf, sizeof(char) * bufsize);
   s->inbufsize = bufsize;
   s->inbufpos = 0;
   s->inbufvalidsize = fread(s->inbuf, 1, bufsize, s->fd);
@@ -386,7 +405,7 @@ static void pnmscanner_gettoken(PNMScanner * s, unsigned char *buf, unsigned int
   unsigned int ctr = 0;
 
   pnmscanner_eatwhitespace(s);
-  while (!(s->eof) && !isspace(s->cur) && (s->cur != '#') && (ctr < bufsize)) {
+  while (!(s->eof) && !isspace(s->cur) && (s->cur != '#') && (ctr < bufsize - 1)) {
     buf[ctr++] = s->cur;
     pnmscanner_getchar(s);
   }
@@ -399,6 +418,7 @@ static void pnmscanner_gettoken(PNMScanner * s, unsigned char *buf, unsigned int
 static void pnmscanner_getsmalltoken(PNMScanner * s, unsigned char *buf)
 {
   pnmscanner_eatwhitespace(s);
+  *buf = '\0';
   if (!(s->eof) && !isspace(s->cur) && (s->cur != '#')) {
     *buf = s->cur;
     pnmscanner_getchar(s);
@@ -411,14 +431,14 @@ static void pnmscanner_getsmalltoken(PNMScanner * s, unsigned char *buf)
 static void pnmscanner_getchar(PNMScanner * s)
 {
   if (s->inbuf) {
-    s->cur = s->inbuf[s->inbufpos++];
     if (s->inbufpos >= s->inbufvalidsize) {
-      if (s->inbufsize > s->inbufvalidsize)
-        s->eof = 1;
-      else
-        s->inbufvalidsize = fread(s->inbuf, 1, s->inbufsize, s->fd);
+      s->inbufvalidsize = fread(s->inbuf, 1, s->inbufsize, s->fd);
       s->inbufpos = 0;
     }
+    if (s->inbufvalidsize > 0)
+      s->cur = s->inbuf[s->inbufpos++];
+    else
+      s->eof = 1;
   } else
     s->eof = !fread(&(s->cur), 1, 1, s->fd);
 }
-- 
2.43.0


From cd9042a4f14415fcface2ef9eff82eaaf4c854fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:56:09 +0000
Subject: [PATCH 05/36] fix: make the GF reader report errors instead of
 exiting

Damaged fonts ended the process, painted outside of the character and left
the file open.  Blank borders were removed without updating the size, signed
values were read as unsigned, specials inside a character were misread, and
the caller's character code option was changed.
---
 src/input-gf.c | 109 ++++++++++++++++++++++++++++++++++---------------
 1 file changed, 75 insertions(+), 34 deletions(-)

diff --git a/src/input-gf.c b/src/input-gf.c
index 41c018f..e6ce282 100644
--- a/src/input-gf.c
+++ b/src/input-gf.c
@@ -81,6 +81,7 @@ typedef struct _gf_char_t {
 typedef struct _gf_font_t {
   char *input_filename;
   FILE *input_file;
+  int failed;                   /* The file could not be read or makes no sense. */
   double design_size;
   unsigned long checksum;
   double h_pixels_per_point, v_pixels_per_point;
@@ -114,8 +115,10 @@ static unsigned char get_byte(gf_font_t * font)
   unsigned char b;
 
   if (fread(&b, 1, 1, font->input_file) != 1) {
-    fprintf(stderr, "%s: read error\n", font->input_filename);
-    exit(-1);
+    if (!font->failed)
+      fprintf(stderr, "%s: read error\n", font->input_filename);
+    font->failed = 1;
+    return 0;
   }
   return b;
 }
@@ -143,22 +146,26 @@ static unsigned long get_three(gf_font_t * font)
   return b;
 }
 
-static unsigned long get_four(gf_font_t * font)
+/*
+ * Four byte quantities are signed.
+ */
+static long get_four(gf_font_t * font)
 {
-  unsigned long b;
+  long b;
 
-  b = (unsigned long)get_byte(font) << 24;
-  b |= (unsigned long)get_byte(font) << 16;
-  b |= (unsigned long)get_byte(font) << 8;
-  b |= get_byte(font);
+  b = (signed char)get_byte(font);
+  b = b * 256 + get_byte(font);
+  b = b * 256 + get_byte(font);
+  b = b * 256 + get_byte(font);
   return b;
 }
 
 static void move_relative(gf_font_t * font, long count)
 {
   if (fseek(font->input_file, count, SEEK_CUR) < 0) {
-    fprintf(stderr, "%s: seek error\n", font->input_filename);
-    exit(-1);
+    if (!font->failed)
+      fprintf(stderr, "%s: seek error\n", font->input_filename);
+    font->failed = 1;
   }
 }
 
@@ -172,9 +179,9 @@ static unsigned char get_previous_byte(gf_font_t * font)
   return b;
 }
 
-static unsigned long get_previous_four(gf_font_t * font)
+static long get_previous_four(gf_font_t * font)
 {
-  unsigned long b;
+  long b;
 
   move_relative(font, -4);
   b = get_four(font);
@@ -188,7 +195,7 @@ static unsigned long get_previous_four(gf_font_t * font)
  */
 static void skip_specials(gf_font_t * font)
 {
-  for (;;) {
+  while (!font->failed) {
     switch (get_byte(font)) {
     case XXX1:
       move_relative(font, get_byte(font));
@@ -199,6 +206,9 @@ static void skip_specials(gf_font_t * font)
     case XXX3:
       move_relative(font, get_three(font));
       continue;
+    case XXX4:
+      move_relative(font, get_four(font) & 0xffffffffL);
+      continue;
     case YYY:
       (void)get_four(font);
       continue;
@@ -235,8 +245,9 @@ static void get_character_bitmap(gf_char_t * sym)
   /* We expect these to be >= 0, but if the GF file is improper,
    * they might turn to be negative.
    */
-  int height, width, painting_black = 0;
-  int cur_x, cur_y;             /* This will be the GF position. */
+  long height, width;
+  int painting_black = 0;
+  long cur_x, cur_y;            /* This will be the GF position. */
 
   cur_x = sym->bbox_min_col;
   cur_y = sym->bbox_max_row;
@@ -260,22 +271,30 @@ static void get_character_bitmap(gf_char_t * sym)
       continue;                 /* do nothing */
     if (c != EOC) {
       fprintf(stderr, "%s: expected eoc (for a blank character), found %u\n", sym->font->input_filename, c);
-      exit(-1);
+      sym->font->failed = 1;
     }
     return;
   }
 
+  sym->bitmap = 0;
+  if (width > 0xffff || height > 0xffff) {
+    fprintf(stderr, "%s: character too large\n", sym->font->input_filename);
+    sym->font->failed = 1;
+    return;
+  }
+
   sym->height = height;
   sym->width = width;
   sym->bitmap = calloc(width, height);
   if (!sym->bitmap) {
     fprintf(stderr, "%s: out of memory\n", sym->font->input_filename);
-    exit(-1);
+    sym->font->failed = 1;
+    return;
   }
 
   for (;;) {
     c = get_byte(sym->font);
-    if (c == EOC)
+    if (c == EOC || sym->font->failed)
       break;
 
     if ( /* PAINT_0 <= c && */ c <= PAINT3) {
@@ -302,7 +321,8 @@ static void get_character_bitmap(gf_char_t * sym)
           break;
         default:
           fprintf(stderr, "%s: invalid painting command %u\n", sym->font->input_filename, c);
-          exit(-1);
+          sym->font->failed = 1;
+          return;
         }
       }
 
@@ -310,9 +330,14 @@ static void get_character_bitmap(gf_char_t * sym)
        * C coordinates.  That means the x's are the same,
        * but the y's are flipped. */
       if (painting_black) {
-        unsigned matrix_x, matrix_y;
+        unsigned long matrix_x, matrix_y;
 
         matrix_y = sym->bbox_max_row - cur_y;
+        if (length != 0 && (cur_y < sym->bbox_min_row || cur_x + (long)length > sym->bbox_max_col)) {
+          fprintf(stderr, "%s: paint outside of the bounding box\n", sym->font->input_filename);
+          sym->font->failed = 1;
+          return;
+        }
         for (; length != 0; length--) {
           matrix_x = cur_x - sym->bbox_min_col;
 
@@ -344,9 +369,10 @@ static void get_character_bitmap(gf_char_t * sym)
         break;
       default:
         fprintf(stderr, "%s: invalid skip command %u\n", sym->font->input_filename, c);
-        exit(-1);
+        sym->font->failed = 1;
+        return;
       }
-      cur_y -= rows_to_skip + 1;
+      cur_y -= (long)rows_to_skip + 1;
       cur_x = sym->bbox_min_col;
       painting_black = 0;
 
@@ -361,11 +387,12 @@ static void get_character_bitmap(gf_char_t * sym)
       /* do nothing */
 
     } else if ((XXX1 <= c && c <= XXX4) || c == YYY) {
+      move_relative(sym->font, -1);
       skip_specials(sym->font);
 
     } else {
       fprintf(stderr, "%s: expected paint or skip or new_row, found %u\n", sym->font->input_filename, c);
-      exit(-1);
+      sym->font->failed = 1;
     }
   }
 }
@@ -448,7 +475,8 @@ static void deblank(gf_char_t * sym)
       condensed.bitmap = calloc(condensed.width, condensed.height);
       if (!condensed.bitmap) {
         fprintf(stderr, "%s: out of memory\n", sym->font->input_filename);
-        exit(-1);
+        sym->font->failed = 1;
+        return;
       }
       for (r = 0; r < condensed.height; r++)
         for (c = 0; c < condensed.width; c++) {
@@ -458,6 +486,8 @@ static void deblank(gf_char_t * sym)
       sym->bbox_max_row -= white_on_top;
       sym->bbox_min_col += white_on_left;
       sym->bbox_max_col -= white_on_right;
+      sym->width = condensed.width;
+      sym->height = condensed.height;
     }
     free(sym->bitmap);
     sym->bitmap = condensed.bitmap;
@@ -467,9 +497,10 @@ static void deblank(gf_char_t * sym)
 static int gf_open(gf_font_t * font, char *filename)
 {
   unsigned char b, c;
-  unsigned long post_ptr;
+  long post_ptr;
 
   font->input_filename = filename;
+  font->failed = 0;
   font->input_file = fopen(filename, "r");
   if (!font->input_file) {
     perror(filename);
@@ -504,7 +535,10 @@ static int gf_open(gf_font_t * font, char *filename)
       break;
   }
 
-  fseek(font->input_file, post_ptr, SEEK_SET);
+  if (font->failed || fseek(font->input_file, post_ptr, SEEK_SET) < 0) {
+    fprintf(stderr, "%s: seek error\n", font->input_filename);
+    return 0;
+  }
   b = get_byte(font);
   if (b != POST) {
     fprintf(stderr, "%s: invalid font structure (expected %u, found %u)\n", font->input_filename, POST, b);
@@ -551,7 +585,7 @@ static int gf_open(gf_font_t * font, char *filename)
     font->char_loc[c].tfm_width = get_four(font);
     font->char_loc[c].char_pointer = get_four(font);
   }
-  return 1;
+  return !font->failed;
 }
 
 /*
@@ -631,8 +665,12 @@ static int gf_get_char(gf_font_t * font, gf_char_t * sym, unsigned char charcode
   }
 
   get_character_bitmap(sym);
-
-  deblank(sym);
+  if (!font->failed)
+    deblank(sym);
+  if (font->failed) {
+    free(sym->bitmap);
+    return 0;
+  }
   return 1;
 }
 
@@ -643,31 +681,34 @@ input_gf_reader(char *filename, at_input_opts_type *opts, at_msg_func msg_func,
   at_bitmap bitmap = at_bitmap_init(NULL, 0, 0, 0);
   gf_font_t fontdata, *font = &fontdata;
   gf_char_t chardata, *sym = &chardata;
-  unsigned int i, j, ptr;
+  unsigned int i, j, ptr, charcode = opts->charcode;
 
   if (!gf_open(font, filename)) {
+    if (font->input_file)
+      fclose(font->input_file);
     at_exception_fatal(&exp, "Cannot open input GF file");
     return bitmap;
   }
-  if (opts->charcode == 0) {
+  if (charcode == 0) {
     /* Find a first character in font file. */
     for (i = 0; i < 256; ++i)
       if (font->char_loc[i].char_pointer != -1)
         break;
     if (i >= 256) {
+      fclose(font->input_file);
       at_exception_fatal(&exp, "No characters in input GF file");
       return bitmap;
     }
-    opts->charcode = i;
+    charcode = i;
   }
-  if (!gf_get_char(font, sym, (unsigned char)opts->charcode)) {
+  if (!gf_get_char(font, sym, (unsigned char)charcode)) {
     fclose(font->input_file);
     at_exception_fatal(&exp, "Error reading character from GF file");
     return bitmap;
   }
 
   ugs_design_pixels = font->design_size * font->v_pixels_per_point + 0.5;
-  ugs_charcode = opts->charcode;
+  ugs_charcode = charcode;
   ugs_advance_width = sym->h_escapement;
   ugs_left_bearing = sym->bbox_min_col;
   ugs_descend = sym->bbox_min_row;
-- 
2.43.0


From ec53ea597c5ce1cdb33c116b9c19c7f67904d2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:02:57 +0000
Subject: [PATCH 06/36] fix: stop a trace for good when the client cancels it
 once

A single positive answer of the cancellation callback was consumed by the
pixel search or the curve fitter and the trace then went on with partial
data.  Remember the answer, release the pixel outlines and the spline list
array on that path, and send no progress after it.
---
 src/autotrace.c | 29 +++++++++++++++++++++++++----
 src/fit.c       |  4 +++-
 src/spline.c    |  1 +
 3 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/src/autotrace.c b/src/autotrace.c
index f91a18f..19ef10d 100644
--- a/src/autotrace.c
+++ b/src/autotrace.c
@@ -229,6 +229,23 @@ at_splines_type *at_splines_new(at_bitmap * bitmap, at_fitting_opts_type * opts,
   return at_splines_new_full(bitmap, opts, msg_func, msg_data, NULL, NULL, NULL, NULL);
 }
 
+/* Remembers that the client has asked to stop, so that one positive
+   answer of its test_cancel function is enough. */
+struct cancel_latch {
+  at_testcancel_func test_cancel;
+  void *testcancel_data;
+  bool cancelled;
+};
+
+static bool test_cancel_latch(void *data)
+{
+  struct cancel_latch *latch = data;
+
+  if (!latch->cancelled)
+    latch->cancelled = latch->test_cancel(latch->testcancel_data);
+  return latch->cancelled;
+}
+
 /* at_splines_new_full modify its argument: BITMAP
    when despeckle, quantize and/or thin_image are invoked. */
 at_splines_type *
@@ -242,12 +259,17 @@ at_splines_new_full(at_bitmap *bitmap, at_fitting_opts_type *opts, at_msg_func m
   QuantizeObj *myQuant = NULL;  /* curently not used */
   at_exception_type exp = at_exception_new(msg_func, msg_data);
   at_distance_map dist_map, *dist = NULL;
+  struct cancel_latch latch = { test_cancel, testcancel_data, false };
+
+  if (test_cancel) {
+    test_cancel = test_cancel_latch;
+    testcancel_data = &latch;
+  }
 
 #define CANCELP (test_cancel && test_cancel(testcancel_data))
 #define FATALP  (at_exception_got_fatal(&exp))
 #define FREE_SPLINE() do {if (splines) {at_splines_free(splines); splines = NULL;}} while(0)
 
-#define CANCEL_THEN_CLEANUP_DIST() if (CANCELP) goto cleanup_dist;
 #define CANCEL_THEN_CLEANUP_PIXELS() if (CANCELP) {FREE_SPLINE(); goto cleanup_pixels;}
 
 #define FATAL_THEN_RETURN() if (FATALP) return splines;
@@ -293,8 +315,8 @@ at_splines_new_full(at_bitmap *bitmap, at_fitting_opts_type *opts, at_msg_func m
     pixels = find_centerline_pixels(bitmap, background_color, notify_progress, progress_data, test_cancel, testcancel_data, &exp);
   } else
     pixels = find_outline_pixels(bitmap, opts->background_color, notify_progress, progress_data, test_cancel, testcancel_data, &exp);
-  FATAL_THEN_CLEANUP_DIST();
-  CANCEL_THEN_CLEANUP_DIST();
+  FATAL_THEN_CLEANUP_PIXELS();
+  CANCEL_THEN_CLEANUP_PIXELS();
 
   XMALLOC(splines, sizeof(at_splines_type));
   *splines = fitted_splines(pixels, opts, dist, image_header.width, image_header.height, &exp, notify_progress, progress_data, test_cancel, testcancel_data);
@@ -313,7 +335,6 @@ cleanup_dist:
 #undef CANCELP
 #undef FATALP
 #undef FREE_SPLINE
-#undef CANCEL_THEN_CLEANUP_DIST
 #undef CANCEL_THEN_CLEANUP_PIXELS
 
 #undef FATAL_THEN_RETURN
diff --git a/src/fit.c b/src/fit.c
index 6b9f36a..56f3979 100644
--- a/src/fit.c
+++ b/src/fit.c
@@ -142,8 +142,10 @@ spline_list_array_type fitted_splines(pixel_outline_list_type pixel_outline_list
 
     if (notify_progress)
       notify_progress((((float) this_list) / ((float) CURVE_LIST_ARRAY_LENGTH(curve_array) * (float) 3.0) + (float) 0.333), progress_data);
-    if (test_cancel && test_cancel(testcancel_data))
+    if (test_cancel && test_cancel(testcancel_data)) {
+      notify_progress = NULL;
       goto cleanup;
+    }
 
     LOG("\nFitting curve list #%u:\n", this_list);
 
diff --git a/src/spline.c b/src/spline.c
index 191caa3..cfb2c00 100644
--- a/src/spline.c
+++ b/src/spline.c
@@ -147,6 +147,7 @@ void free_spline_list_array(spline_list_array_type * spline_list_array)
   for (this_list = 0; this_list < SPLINE_LIST_ARRAY_LENGTH(*spline_list_array); this_list++)
     free_spline_list(SPLINE_LIST_ARRAY_ELT(*spline_list_array, this_list));
 
+  free(SPLINE_LIST_ARRAY_DATA(*spline_list_array));
 }
 
 /* Append the spline S to the list SPLINE_LIST_ARRAY.  */
-- 
2.43.0


From 7f47457b486ec0580ab332b5bab1aa244436c35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:05:47 +0000
Subject: [PATCH 07/36] fix: make the command-line tool notice failed writes
 and bad arguments

Closing the output and the bitmap dump is checked, the input may not be
named as output under another name, a file name without a suffix no longer
crashes the handler lookup, flags no longer overwrite their neighbours, and
an invalid background colour is refused.
---
 src/color.c    | 12 +++++++----
 src/input.cpp  |  3 ++-
 src/main.c     | 54 +++++++++++++++++++++++++++++++++++++-------------
 src/output.cpp |  3 ++-
 4 files changed, 52 insertions(+), 20 deletions(-)

diff --git a/src/color.c b/src/color.c
index 2fb539d..5ef3126 100644
--- a/src/color.c
+++ b/src/color.c
@@ -26,6 +26,7 @@
 #include "color.h"
 #include "exception.h"
 #include "glibReplacement.h"
+#include "xstd.h"
 
 #include <string.h>
 #include <stdlib.h>
@@ -38,7 +39,7 @@ static unsigned int hctoi(char c, struct GError **err);
 at_color *at_color_new(unsigned char r, unsigned char g, unsigned char b)
 {
   at_color *color;
-  color = malloc(sizeof(at_color));
+  XMALLOC(color, sizeof(at_color));
   color->r = r;
   color->g = g;
   color->b = b;
@@ -55,12 +56,15 @@ at_color *at_color_parse(const char *string, struct GError **err) {
   else if (string[0] == '\0')
     return NULL;
   else if (strlen(string) != 6) {
-    printf("color string is too short: %s", string);
+    fprintf(stderr, "color string is too short: %s\n", string);
     return NULL;
   }
 
   for (i = 0; i < 6; i++) {
-    c[i] = hctoi(string[i], &local_err);
+    unsigned int digit = hctoi(string[i], &local_err);
+    if (digit > 15)
+      return NULL;
+    c[i] = (unsigned char)digit;
     if (local_err != NULL) {
       if (err != NULL) {
         *err = local_err;
@@ -151,7 +155,7 @@ static unsigned int hctoi(char c, struct GError **err)
   else if (c == 'F')
     return (15);
   else {
-    printf("wrong char in color string: %c", c);
+    fprintf(stderr, "wrong char in color string: %c\n", c);
     return (unsigned int)-1;
   }
 }
diff --git a/src/input.cpp b/src/input.cpp
index af0ac19..85742c3 100644
--- a/src/input.cpp
+++ b/src/input.cpp
@@ -68,9 +68,10 @@ int at_input_add_handler_full(const char *suffix, const char *description, at_in
 
 at_bitmap_reader *at_input_get_handler(char *filename) {
   char *dot_pos = strrchr(filename, '.');
-  dot_pos++;
   if (dot_pos == nullptr)
     dot_pos = const_cast<char *>("");
+  else
+    dot_pos++;
 
   return at_input_get_handler_by_suffix(dot_pos);
 }
diff --git a/src/main.c b/src/main.c
index 811d213..7a52bf0 100644
--- a/src/main.c
+++ b/src/main.c
@@ -21,6 +21,9 @@
 #undef N_
 #include "intl.h"
 #include "output.h"
+#ifndef WIN32
+#include <sys/stat.h>
+#endif
 #ifdef ENABLE_NLS
 #include <locale.h>
 #endif
@@ -41,21 +44,26 @@ static char *output_name = (char *)"";
 static at_spline_writer *output_writer = NULL;
 
 /* Whether to print version information */
-static bool printed_version;
+static int printed_version;
 
 /* Whether to dump a bitmap file */
-static bool dumping_bitmap = false;
+static int dumping_bitmap = false;
 
 /* Report tracing status in real time (--report-progress) */
-static bool report_progress = false;
+static int report_progress = false;
 #define dot_printer_max_column 50
 #define dot_printer_char '|'
 static void dot_printer(float percentage, void *client_data);
 
+/* What getopt stores for -log; `logging' itself is not an int. */
+static int log_flag = false;
+
 static char *read_command_line(int, char *[], at_fitting_opts_type *, at_input_opts_type *, at_output_opts_type *);
 
 static void dump(at_bitmap * bitmap, FILE * fp);
 
+static void close_output(FILE * file, char *name);
+
 static void input_list_formats(FILE * file);
 static void output_list_formats(FILE * file);
 
@@ -87,6 +95,9 @@ int main(int argc, char *argv[])
   at_bitmap *bitmap;
   FILE *output_file;
   FILE *dump_file;
+#ifndef WIN32
+  struct stat input_stat, output_stat;
+#endif
 
   at_progress_func progress_reporter = NULL;
   int progress_stat = 0;
@@ -107,6 +118,12 @@ int main(int argc, char *argv[])
 
   if (output_name != NULL && input_name != NULL && 0 == strcasecmp(output_name, input_name))
     FATAL(_("Input and output file may not be the same\n"));
+#ifndef WIN32
+  /* Two names of one file are the same file, too. */
+  if (output_name != NULL && stat(input_name, &input_stat) == 0 && stat(output_name, &output_stat) == 0
+      && input_stat.st_dev == output_stat.st_dev && input_stat.st_ino == output_stat.st_ino)
+    FATAL(_("Input and output file may not be the same\n"));
+#endif
 
   if ((input_rootname = remove_suffix(get_basename(input_name))) == NULL)
     FATAL(_("Not a valid input file name %s"), input_name);
@@ -178,14 +195,13 @@ int main(int argc, char *argv[])
     fprintf(dump_file, "%d %d\n", at_bitmap_get_width(bitmap), at_bitmap_get_height(bitmap));
     fprintf(dump_file, "%d\n", 255);
     dump(bitmap, dump_file);
-    fclose(dump_file);
+    close_output(dump_file, dumpfile_name);
   }
 
   at_splines_write(output_writer, output_file, output_name, output_opts, splines, exception_handler, NULL);
   at_output_opts_free(output_opts);
 
-  if (output_file != stdout)
-    fclose(output_file);
+  close_output(output_file, output_name);
 
   at_splines_free(splines);
   at_bitmap_free(bitmap);
@@ -264,7 +280,7 @@ static char *read_command_line(int argc, char *argv[], at_fitting_opts_type * fi
   = { {"align-threshold", 1, 0, 0},
   {"background-color", 1, 0, 0},
   {"debug-arch", 0, 0, 0},
-  {"debug-bitmap", 0, (int *)&dumping_bitmap, 1},
+  {"debug-bitmap", 0, &dumping_bitmap, 1},
   {"centerline", 0, 0, 0},
   {"charcode", 1, 0, 0},
   {"color-count", 1, 0, 0},
@@ -282,7 +298,7 @@ static char *read_command_line(int argc, char *argv[], at_fitting_opts_type * fi
   {"line-threshold", 1, 0, 0},
   {"list-output-formats", 0, 0, 0},
   {"list-input-formats", 0, 0, 0},
-  {"log", 0, (int *)&logging, 1},
+  {"log", 0, &log_flag, 1},
   {"noise-removal", 1, 0, 0},
   {"output-file", 1, 0, 0},
   {"output-format", 1, 0, 0},
@@ -291,8 +307,8 @@ static char *read_command_line(int argc, char *argv[], at_fitting_opts_type * fi
   {"remove-adjacent-corners", 0, 0, 0},
   {"remove-knees",    0, 0, 0 },
   {"tangent-surround", 1, 0, 0},
-  {"report-progress", 0, (int *)&report_progress, 1},
-  {"version", 0, (int *)&printed_version, 1},
+  {"report-progress", 0, &report_progress, 1},
+  {"version", 0, &printed_version, 1},
   {"width-weight-factor", 1, 0, 0},
   {0, 0, 0, 0}
   };
@@ -311,6 +327,8 @@ static char *read_command_line(int argc, char *argv[], at_fitting_opts_type * fi
 
     if (ARGUMENT_IS("background-color")) {
       fitting_opts->background_color = at_color_parse(optarg, NULL);
+      if (fitting_opts->background_color == NULL)
+        FATAL(_("Not a valid background color %s"), optarg);
       input_opts->background_color = at_color_copy(fitting_opts->background_color);
     } else if (ARGUMENT_IS("centerline"))
       fitting_opts->centerline = true;
@@ -363,12 +381,9 @@ static char *read_command_line(int argc, char *argv[], at_fitting_opts_type * fi
       fitting_opts->filter_iterations = atou(optarg);
 
     else if (ARGUMENT_IS("help")) {
-      char *ishortlist, *oshortlist;
       fprintf(stderr, _("Usage: %s [options] <input_file_name>.\n"), argv[0]);
       fprintf(stderr, USAGE1);
       /*fprintf(stderr, USAGE2, ishortlist = at_input_shortlist(), oshortlist = at_output_shortlist());*/
-      free(ishortlist);
-      free(oshortlist);
       fprintf(stderr, _("\nYou can get the source code of autotrace from \n%s\n"), at_home_site());
       exit(0);
     }
@@ -402,7 +417,7 @@ static char *read_command_line(int argc, char *argv[], at_fitting_opts_type * fi
       output_writer = at_output_get_handler_by_suffix(optarg);
       if (output_writer == NULL)
         FATAL(_("Output format %s is not supported"), optarg);
-    } else if (ARGUMENT_IS("preserve_width"))
+    } else if (ARGUMENT_IS("preserve-width"))
       fitting_opts->preserve_width = true;
 
     else if (ARGUMENT_IS("remove-adjacent-corners"))
@@ -422,6 +437,7 @@ static char *read_command_line(int argc, char *argv[], at_fitting_opts_type * fi
 
     /* Else it was just a flag; getopt has already done the assignment.  */
   }
+  logging = log_flag != 0;
   FINISH_COMMAND_LINE();
 }
 
@@ -474,6 +490,16 @@ static void dump(at_bitmap * bitmap, FILE * fp)
   fwrite(AT_BITMAP_BITS(bitmap), sizeof(unsigned char), width * height * np, fp);
 }
 
+/* Close FILE; what was written to NAME is only complete if that works. */
+
+static void close_output(FILE * file, char *name)
+{
+  int failed = ferror(file);
+
+  if (fclose(file) != 0 || failed)
+    FATAL(_("Cannot write output file %s"), name);
+}
+
 static void exception_handler(const char * msg, at_msg_type type, void * data)
 {
   if (type == AT_MSG_FATAL) {
diff --git a/src/output.cpp b/src/output.cpp
index 76435ae..9ca21a8 100644
--- a/src/output.cpp
+++ b/src/output.cpp
@@ -66,9 +66,10 @@ int at_output_add_handler(const char *suffix, const char *description, at_output
 
 at_spline_writer *at_output_get_handler(char *filename) {
   char *dot_pos = strrchr(filename, '.');
-  dot_pos++;
   if (dot_pos == nullptr)
     dot_pos = const_cast<char *>("");
+  else
+    dot_pos++;
 
   return at_output_get_handler_by_suffix(dot_pos);
 }
-- 
2.43.0


From 65140798eb59b0593287ed43de08f41db63c9b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:05:47 +0000
Subject: [PATCH 08/36] fix: report failures from the C++ interface and release
 everything

produceOutput ignored fatal messages and write errors and leaked the bitmap
and the output file.  Copying option objects by assignment freed the colour
twice.
---
 src/wrapper/FittingOptions.cpp      |  8 ++++++
 src/wrapper/FittingOptions.h        |  2 +-
 src/wrapper/InputOptions.cpp        |  8 ++++++
 src/wrapper/InputOptions.h          |  2 +-
 src/wrapper/InputOptionsBuilder.cpp |  2 +-
 src/wrapper/autotrace.cpp           | 43 +++++++++++++++++++++--------
 6 files changed, 51 insertions(+), 14 deletions(-)

diff --git a/src/wrapper/FittingOptions.cpp b/src/wrapper/FittingOptions.cpp
index 80e41fd..fc88232 100644
--- a/src/wrapper/FittingOptions.cpp
+++ b/src/wrapper/FittingOptions.cpp
@@ -137,3 +137,11 @@ FittingOptions::FittingOptions(const FittingOptions &other) : _at_fitting_opts_t
   preserve_width = other.preserve_width;
   width_weight_factor = other.width_weight_factor;
 }
+
+FittingOptions &FittingOptions::operator=(const FittingOptions &other) {
+  const auto color = background_color;
+  *color = *other.background_color;
+  _at_fitting_opts_type::operator=(other);
+  background_color = color;
+  return *this;
+}
diff --git a/src/wrapper/FittingOptions.h b/src/wrapper/FittingOptions.h
index fdea75b..6de740d 100644
--- a/src/wrapper/FittingOptions.h
+++ b/src/wrapper/FittingOptions.h
@@ -13,7 +13,7 @@ public:
   virtual ~FittingOptions();
 
   FittingOptions(const FittingOptions& other);
-  FittingOptions& operator=(const FittingOptions& other) = default;
+  FittingOptions& operator=(const FittingOptions& other);
 
   explicit FittingOptions(json11::Json fittingOptionsJson);
 
diff --git a/src/wrapper/InputOptions.cpp b/src/wrapper/InputOptions.cpp
index d3d245e..3e999f8 100644
--- a/src/wrapper/InputOptions.cpp
+++ b/src/wrapper/InputOptions.cpp
@@ -55,3 +55,11 @@ InputOptions::InputOptions(const InputOptions &other) : _at_input_opts_type(othe
 
   charcode = other.charcode;
 }
+
+InputOptions &InputOptions::operator=(const InputOptions &other) {
+  const auto color = background_color;
+  *color = *other.background_color;
+  _at_input_opts_type::operator=(other);
+  background_color = color;
+  return *this;
+}
diff --git a/src/wrapper/InputOptions.h b/src/wrapper/InputOptions.h
index 45c2abb..73c10fc 100644
--- a/src/wrapper/InputOptions.h
+++ b/src/wrapper/InputOptions.h
@@ -14,7 +14,7 @@ public:
   virtual ~InputOptions();
 
   InputOptions(const InputOptions &other);
-  InputOptions& operator=(const InputOptions& other) = default;
+  InputOptions& operator=(const InputOptions& other);
 
   explicit InputOptions(json11::Json inputOptionsJson);
 
diff --git a/src/wrapper/InputOptionsBuilder.cpp b/src/wrapper/InputOptionsBuilder.cpp
index d3ceeca..4826119 100644
--- a/src/wrapper/InputOptionsBuilder.cpp
+++ b/src/wrapper/InputOptionsBuilder.cpp
@@ -13,7 +13,7 @@ InputOptions InputOptionsBuilder::build() {
 }
 
 InputOptionsBuilder &InputOptionsBuilder::setBackgroudColor(_at_color color) {
-  inputOptions.background_color = at_color_copy(&color);
+  *inputOptions.background_color = color;
   return *this;
 }
 
diff --git a/src/wrapper/autotrace.cpp b/src/wrapper/autotrace.cpp
index 57c9b89..18071d1 100644
--- a/src/wrapper/autotrace.cpp
+++ b/src/wrapper/autotrace.cpp
@@ -9,6 +9,12 @@ Autotrace::Autotrace(const std::string &inputFile, const std::string &outputFile
   autotrace_init();
 }
 
+static void rememberFatal(const char *message, at_msg_type type, void *data) {
+  if (type == AT_MSG_FATAL) {
+    *static_cast<std::string *>(data) = message;
+  }
+}
+
 nonstd::expected<void, std::string> Autotrace::produceOutput() {
   const auto inputReader = at_input_get_handler(const_cast<char *>(inputFile.c_str()));
   if (inputReader == nullptr) {
@@ -25,23 +31,38 @@ nonstd::expected<void, std::string> Autotrace::produceOutput() {
     return nonstd::make_unexpected("Unable to open file " + outputFilePath);
   }
 
+  std::string error;
+  at_splines_type *splines = nullptr;
+
   const auto bitmap = at_bitmap_read(inputReader, const_cast<char *>(inputFile.c_str()),
-                                     const_cast<at_input_opts_type *>(&options.inputOptions), nullptr, nullptr);
+                                     const_cast<at_input_opts_type *>(&options.inputOptions), rememberFatal, &error);
+  if (error.empty() && bitmap->bitmap == nullptr) {
+    error = "Unable to open file " + inputFile;
+  }
 
-    if (bitmap->bitmap == nullptr) {
-        return nonstd::make_unexpected("Unable to open file " + inputFile);
+  if (error.empty()) {
+    splines = at_splines_new_full(bitmap, const_cast<at_fitting_opts_type *>(&options.fittingOptions), rememberFatal,
+                                  &error, nullptr, nullptr, nullptr, nullptr);
+    if (error.empty() && splines == nullptr) {
+      error = "Unable to trace " + inputFile;
     }
+  }
+  at_bitmap_free(bitmap);
 
-  const auto splines = at_splines_new_full(bitmap, const_cast<at_fitting_opts_type *>(&options.fittingOptions), nullptr,
-                                           nullptr, nullptr, nullptr, nullptr, nullptr);
-
-  at_splines_write(outputWriter, outputFile, const_cast<char *>(outputFilePath.c_str()),
-                   const_cast<at_output_opts_type *>(&options.outputOptions), splines, nullptr, nullptr);
+  if (splines != nullptr) {
+    at_splines_write(outputWriter, outputFile, const_cast<char *>(outputFilePath.c_str()),
+                     const_cast<at_output_opts_type *>(&options.outputOptions), splines, rememberFatal, &error);
+    at_splines_free(splines);
+  }
 
-  fclose(outputFile);
+  const bool writeFailed = ferror(outputFile) != 0;
+  if ((fclose(outputFile) != 0 || writeFailed) && error.empty()) {
+    error = "Unable to write file " + outputFilePath;
+  }
 
-  at_splines_free(splines);
-  at_bitmap_free(bitmap);
+  if (!error.empty()) {
+    return nonstd::make_unexpected(error);
+  }
 
   return nonstd::expected<void, std::string>();
 }
-- 
2.43.0


From 4b61c01a55f3af41d1b0f9e55b80beb20370a43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:05:47 +0000
Subject: [PATCH 09/36] fix: give a defined date string when the clock cannot
 be formatted

---
 src/autotrace.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/autotrace.c b/src/autotrace.c
index 19ef10d..ac56a65 100644
--- a/src/autotrace.c
+++ b/src/autotrace.c
@@ -419,8 +419,9 @@ char *at_time_string(void) {
   else
     t = time(0);
 
-  time_string = malloc(26);  /* not 25 ! */
-  ctime_r(&t, time_string);     /* _r: reentrant */
+  XMALLOC(time_string, 26);     /* not 25 ! */
+  if (ctime_r(&t, time_string) == NULL)  /* _r: reentrant */
+    strcpy(time_string, "unknown");
   time_string[24] = 0;          /* No newline. */
 
   return time_string;
-- 
2.43.0


From 828970dbb181429b342e4123fbb1bb747db0d19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:12:18 +0000
Subject: [PATCH 10/36] fix: stop at a failed allocation while despeckling

---
 src/despeckle.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/despeckle.c b/src/despeckle.c
index f726f7b..b7bc51a 100644
--- a/src/despeckle.c
+++ b/src/despeckle.c
@@ -578,7 +578,7 @@ static void despeckle_iteration( /* in */ int level,
   current_size = 1 << level;
   tightness = (int)(noise_max / (1.0 + adaptive_tightness * level));
 
-  mask = (unsigned char *)calloc(width * height, sizeof(unsigned char));
+  XCALLOC(mask, width * height * sizeof(unsigned char));
   for (y = 0; y < height; y++) {
     for (x = 0; x < width; x++) {
       if (mask[y * width + x] == 0) {
@@ -627,7 +627,7 @@ static void despeckle_iteration_8( /* in */ int level,
   current_size = 1 << level;
   tightness = (int)(noise_max / (1.0 + adaptive_tightness * level));
 
-  mask = (unsigned char *)calloc(width * height, sizeof(unsigned char));
+  XCALLOC(mask, width * height * sizeof(unsigned char));
   for (y = 0; y < height; y++) {
     for (x = 0; x < width; x++) {
       if (mask[y * width + x] == 0) {
-- 
2.43.0


From fbc83bd8511d645aae04fcbe747405bd0c7ca9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:12:18 +0000
Subject: [PATCH 11/36] fix: leave the caller's fitting options alone while
 splitting short outlines

---
 src/fit.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/fit.c b/src/fit.c
index 56f3979..b05442c 100644
--- a/src/fit.c
+++ b/src/fit.c
@@ -378,10 +378,9 @@ static curve_list_array_type split_at_corners(pixel_outline_list_type pixel_list
     else {
       int surround;
       if ((surround = (int)(O_LENGTH(pixel_o) - 3) / 2) >= 2) {
-        unsigned save_corner_surround = fitting_opts->corner_surround;
-        fitting_opts->corner_surround = surround;
-        corner_list = find_corners(pixel_o, fitting_opts, exception);
-        fitting_opts->corner_surround = save_corner_surround;
+        fitting_opts_type short_opts = *fitting_opts;
+        short_opts.corner_surround = surround;
+        corner_list = find_corners(pixel_o, &short_opts, exception);
       } else {
         corner_list.length = 0;
         corner_list.data = NULL;
-- 
2.43.0


From b45abbaa4e81e80b5e728a94a5e5dcbf89f5a3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:12:18 +0000
Subject: [PATCH 12/36] fix: do not read colours outside the bitmap when
 following centerlines

---
 src/pxl-outline.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pxl-outline.c b/src/pxl-outline.c
index 2482b10..35f7765 100644
--- a/src/pxl-outline.c
+++ b/src/pxl-outline.c
@@ -218,12 +218,13 @@ bool is_valid_dir(unsigned short row, unsigned short col, direction_type dir, at
 
   at_color c;
 
-  if ((COMPUTE_DELTA(ROW, dir) + row < 0) || (COMPUTE_DELTA(COL, dir) + col < 0))
-	return false;	// Must not call at_bitmap_get_color() with negative row or col.
+  if ((COMPUTE_DELTA(ROW, dir) + row < 0) || (COMPUTE_DELTA(COL, dir) + col < 0)
+      || !AT_BITMAP_VALID_PIXEL(bitmap, COMPUTE_DELTA(ROW, dir) + row, COMPUTE_DELTA(COL, dir) + col))
+	return false;	// Must not call at_bitmap_get_color() with a row or col outside the bitmap.
 
   at_bitmap_get_color(bitmap, COMPUTE_DELTA(ROW, dir) + row, COMPUTE_DELTA(COL, dir) + col, &c);
   return ((bool) (!is_marked_dir(row, col, dir, marked)
-                  && COMPUTE_DELTA(ROW, dir) + row > 0 && COMPUTE_DELTA(COL, dir) + col > 0 && AT_BITMAP_VALID_PIXEL(bitmap, COMPUTE_DELTA(ROW, dir) + row, COMPUTE_DELTA(COL, dir) + col)
+                  && COMPUTE_DELTA(ROW, dir) + row > 0 && COMPUTE_DELTA(COL, dir) + col > 0
                   && at_bitmap_equal_color(bitmap, row, col, &c)));
 }
 
@@ -232,7 +233,7 @@ find_centerline_pixels(at_bitmap *bitmap, at_color bg_color, at_progress_func no
                        at_testcancel_func test_cancel, void *testcancel_data, at_exception_type *exp)
 {
   pixel_outline_list_type outline_list;
-  signed short row, col;
+  unsigned short row, col;
   at_bitmap *marked = at_bitmap_new(AT_BITMAP_WIDTH(bitmap), AT_BITMAP_HEIGHT(bitmap), 1);
   unsigned int max_progress = AT_BITMAP_HEIGHT(bitmap) * AT_BITMAP_WIDTH(bitmap);
 
-- 
2.43.0


From 8a7e05433eb5df042f3c529e9f7da072ac347183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:12:18 +0000
Subject: [PATCH 13/36] fix: do not carry the background colour of one thinning
 over to the next

---
 src/thin-image.c | 26 +++++++-------------------
 1 file changed, 7 insertions(+), 19 deletions(-)

diff --git a/src/thin-image.c b/src/thin-image.c
index 2e220ec..eab9c51 100644
--- a/src/thin-image.c
+++ b/src/thin-image.c
@@ -36,8 +36,8 @@
 
 typedef unsigned char Pixel[3]; /* RGB pixel data type */
 
-void thin3(at_bitmap * image, Pixel colour);
-void thin1(at_bitmap * image, unsigned char colour);
+void thin3(at_bitmap * image, Pixel colour, Pixel bg_color);
+void thin1(at_bitmap * image, unsigned char colour, unsigned char bg_color);
 
 /* -------------------------------- ThinImage - Thin binary image. --------------------------- *
  *
@@ -99,8 +99,6 @@ static unsigned char todelete[512] = {
   1, 0, 1, 1, 1, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1
 };
 
-static at_color background = { 0xff, 0xff, 0xff };
-
 void thin_image(at_bitmap * image, const at_color * bg, at_exception_type * exp)
 {
   /* This is nasty as we need to call thin once for each
@@ -110,6 +108,7 @@ void thin_image(at_bitmap * image, const at_color * bg, at_exception_type * exp)
    * trades time for pathological case memory.....*/
   long m, n, num_pixels;
   at_bitmap bm;
+  at_color background = { 0xff, 0xff, 0xff };
   unsigned int spp = AT_BITMAP_PLANES(image), width = AT_BITMAP_WIDTH(image), height = AT_BITMAP_HEIGHT(image);
 
   if (bg)
@@ -143,7 +142,7 @@ void thin_image(at_bitmap * image, const at_color * bg, at_exception_type * exp)
             if (PIXEL_EQUAL(ptr[m], p))
               PIXEL_SET(ptr[m], bg_color);
           }
-          thin3(image, p);
+          thin3(image, p, bg_color);
         }
       }
       break;
@@ -166,7 +165,7 @@ void thin_image(at_bitmap * image, const at_color * bg, at_exception_type * exp)
           for (m = n - 1; m >= 0L; --m)
             if (ptr[m] == c)
               ptr[m] = bg_color;
-          thin1(image, c);
+          thin1(image, c, bg_color);
         }
       }
       break;
@@ -183,10 +182,9 @@ cleanup:
   free(bm.bitmap);
 }
 
-void thin3(at_bitmap * image, Pixel colour)
+void thin3(at_bitmap * image, Pixel colour, Pixel bg_color)
 {
   Pixel *ptr, *y_ptr, *y1_ptr;
-  Pixel bg_color;
   unsigned int xsize, ysize;    /* Image resolution             */
   unsigned int x, y;            /* Pixel location               */
   unsigned int i;               /* Pass index           */
@@ -198,10 +196,6 @@ void thin3(at_bitmap * image, Pixel colour)
   /* scanline                     */
   unsigned int m;               /* Deletion direction mask      */
 
-  bg_color[0] = background.r;
-  bg_color[1] = background.g;
-  bg_color[2] = background.b;
-
   LOG(" Thinning image.....\n ");
   xsize = AT_BITMAP_WIDTH(image);
   ysize = AT_BITMAP_HEIGHT(image);
@@ -268,10 +262,9 @@ void thin3(at_bitmap * image, Pixel colour)
   free(qb);
 }
 
-void thin1(at_bitmap * image, unsigned char colour)
+void thin1(at_bitmap * image, unsigned char colour, unsigned char bg_color)
 {
   unsigned char *ptr, *y_ptr, *y1_ptr;
-  unsigned char bg_color;
   unsigned int xsize, ysize;    /* Image resolution             */
   unsigned int x, y;            /* Pixel location               */
   unsigned int i;               /* Pass index           */
@@ -283,11 +276,6 @@ void thin1(at_bitmap * image, unsigned char colour)
   /* scanline                     */
   unsigned int m;               /* Deletion direction mask      */
 
-  if (background.r == background.g && background.g == background.b)
-    bg_color = background.r;
-  else
-    bg_color = at_color_luminance(&background);
-
   LOG(" Thinning image.....\n ");
   xsize = AT_BITMAP_WIDTH(image);
   ysize = AT_BITMAP_HEIGHT(image);
-- 
2.43.0


From 53f43d32b9c418ccf664e6e5450b022752f4eeac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:12:34 +0000
Subject: [PATCH 14/36] fix: start every FIG drawing from clean colour and
 depth tables

The colour table, its length and the bounding boxes were kept from one
drawing to the next, so the second drawing in a process differed from the
first and finally failed.  They are now reset for each drawing, private to
each thread, and a full colour table ends the drawing.
---
 src/output-fig.c | 21 ++++++++++++++-------
 src/xstd.h       |  8 ++++++++
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/output-fig.c b/src/output-fig.c
index 38d777d..9f01455 100644
--- a/src/output-fig.c
+++ b/src/output-fig.c
@@ -52,23 +52,23 @@ static void fig_col_init(void);
 /* colour information */
 #define fig_col_hash(col_typ)  ( ( (col_typ).r & 255 ) + ( (col_typ).g & 161 ) + ( (col_typ).b & 127 ) )
 
-static struct {
+static AT_THREAD_LOCAL struct {
   unsigned int colour;
   unsigned int alternate;
 } fig_hash[544];
 
-static struct {
+static AT_THREAD_LOCAL struct {
   at_color c;
   int alternate;
 } fig_colour_map[544];
 
-static int LAST_FIG_COLOUR = 32;
+static AT_THREAD_LOCAL int LAST_FIG_COLOUR = 32;
 #define MAX_FIG_COLOUR 543
 
 /* Bounding Box data and routines */
-static float glob_min_x, glob_max_x, glob_min_y, glob_max_y;
-static float loc_min_x, loc_max_x, loc_min_y, loc_max_y;
-static int glo_bbox_flag = 0, loc_bbox_flag = 0, fig_depth;
+static AT_THREAD_LOCAL float glob_min_x, glob_max_x, glob_min_y, glob_max_y;
+static AT_THREAD_LOCAL float loc_min_x, loc_max_x, loc_min_y, loc_max_y;
+static AT_THREAD_LOCAL int glo_bbox_flag = 0, loc_bbox_flag = 0, fig_depth;
 
 static void fig_new_depth()
 {
@@ -161,6 +161,10 @@ static void out_fig_splines(FILE * file, spline_list_array_type shape, int llx,
     spline_list_type list = SPLINE_LIST_ARRAY_ELT(shape, this_list);
     at_color curr_color = (list.clockwise && shape.background_color != NULL) ? *(shape.background_color) : list.color;
     spline_colours[this_list] = get_fig_colour(curr_color, exp);
+    if (at_exception_got_fatal(exp)) {
+      free(spline_colours);
+      return;
+    }
   }
   /* Output colours */
   if (LAST_FIG_COLOUR > 32) {
@@ -355,7 +359,7 @@ int output_fig_writer(FILE *file, char *name, int llx, int lly, int urx, int ury
 
 /*	Output data	*/
   out_fig_splines(file, shape, llx, lly, urx, ury, &exp);
-  return 0;
+  return at_exception_got_fatal(&exp) ? -1 : 0;
 }
 
 /*
@@ -369,6 +373,9 @@ static void fig_col_init(void)
 {
   int i;
 
+  /* Nothing of an earlier drawing may show in this one */
+  LAST_FIG_COLOUR = 32;
+  glo_bbox_flag = loc_bbox_flag = 0;
   for (i = 0; i < 544; i++) {
     fig_hash[i].colour = 0;
     fig_colour_map[i].alternate = 0;
diff --git a/src/xstd.h b/src/xstd.h
index f31d1d3..d318fe5 100644
--- a/src/xstd.h
+++ b/src/xstd.h
@@ -11,6 +11,14 @@
 #include <assert.h>
 #include <stdlib.h>
 
+/* Storage class for the working variables of a reader or writer, so that
+   calls made by different threads do not disturb each other. */
+#ifdef _MSC_VER
+#define AT_THREAD_LOCAL __declspec(thread)
+#else
+#define AT_THREAD_LOCAL __thread
+#endif
+
 /*
  * XMEM
  */
-- 
2.43.0


From 24cf986f553f77e22b8c203816185b9a9e1b66f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:12:34 +0000
Subject: [PATCH 15/36] fix: do not delete a pen that was never made in an
 empty EMF drawing

---
 src/output-emf.c | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/output-emf.c b/src/output-emf.c
index 8cc13ee..5ff8c53 100644
--- a/src/output-emf.c
+++ b/src/output-emf.c
@@ -90,9 +90,9 @@ typedef struct {
 
 /* globals */
 
-static EMFColorList *color_list = NULL; /* Color list */
-static uint32_t *color_table = NULL;  /* Color table */
-static float y_offset;
+static AT_THREAD_LOCAL EMFColorList *color_list = NULL; /* Color list */
+static AT_THREAD_LOCAL uint32_t *color_table = NULL;  /* Color table */
+static AT_THREAD_LOCAL float y_offset;
 
 /* color list & table functions */
 
@@ -843,14 +843,16 @@ static void GetEmfStats(EMFStats *stats, char *name, spline_list_array_type shap
   }
 
   // cleanup Pen and Brush
-  if (shape.centerline) {
+  if (SPLINE_LIST_ARRAY_LENGTH(shape) > 0) {
+    if (shape.centerline) {
+      nrecords++;
+      filesize += WriteDeleteObject(NULL, 0);
+    }
+
     nrecords++;
     filesize += WriteDeleteObject(NULL, 0);
   }
 
-  nrecords++;
-  filesize += WriteDeleteObject(NULL, 0);
-
   // emf stats :: header + footer
   nrecords += 2;
   filesize += WriteEndOfMetafile(NULL) + WriteHeader(NULL, name, 0, 0, 0, 0, 0);
@@ -962,9 +964,11 @@ static void OutputEmf(FILE *fdes, EMFStats *stats, char *name, int width, int he
   }
 
   //cleanup DC
-  if (shape.centerline)
-    WriteDeleteObject(fdes, MK_PEN(last_index));
-  WriteDeleteObject(fdes, MK_BRUSH(last_index));
+  if (SPLINE_LIST_ARRAY_LENGTH(shape) > 0) {
+    if (shape.centerline)
+      WriteDeleteObject(fdes, MK_PEN(last_index));
+    WriteDeleteObject(fdes, MK_BRUSH(last_index));
+  }
 
   //output EndOfMetafile
   WriteEndOfMetafile(fdes);
-- 
2.43.0


From 39821ebf9e2dcaf00685034634bfaadaaa79cba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:12:34 +0000
Subject: [PATCH 16/36] fix: start every ILDA drawing with no frame and release
 it afterwards

---
 src/output-ild.c | 53 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 35 insertions(+), 18 deletions(-)

diff --git a/src/output-ild.c b/src/output-ild.c
index de5c28e..3a75050 100644
--- a/src/output-ild.c
+++ b/src/output-ild.c
@@ -61,7 +61,7 @@ int lineDistance = 800;
 int blankDistance = 1200;
 int anchor_thresh = 40;
 
-int inserted_anchor_points = 0;
+static AT_THREAD_LOCAL int inserted_anchor_points = 0;
 
 typedef struct tagLaserPoint {
   void *next;
@@ -95,8 +95,8 @@ typedef struct tagLaserSequence {
 
 typedef LaserSequence *pLaserSequence;
 
-pLaserFrame drawframe = NULL;
-pLaserSequence drawsequence = NULL;
+static AT_THREAD_LOCAL pLaserFrame drawframe = NULL;
+static AT_THREAD_LOCAL pLaserSequence drawsequence = NULL;
 static unsigned char ilda[4] = { 'I', 'L', 'D', 'A' };
 
 // ILDA standard color palette
@@ -394,8 +394,7 @@ pLaserPoint newLaserPoint(void)
 {
   pLaserPoint p = NULL;
 
-  if ((p = (pLaserPoint) malloc(sizeof(LaserPoint))) == NULL)
-    return (NULL);
+  XMALLOC(p, sizeof(LaserPoint));
 
   p->x = p->y = p->z = 0;
   p->r = p->g = p->b = 0;
@@ -409,8 +408,7 @@ pLaserFrame newLaserFrame(void)
 {
   pLaserFrame p = NULL;
 
-  if ((p = (pLaserFrame) malloc(sizeof(LaserFrame))) == NULL)
-    return (NULL);
+  XMALLOC(p, sizeof(LaserFrame));
 
   p->next = NULL;
   p->previous = NULL;
@@ -456,8 +454,7 @@ pLaserSequence newLaserSequence(void)
 {
   pLaserSequence p = NULL;
 
-  if ((p = (pLaserSequence) malloc(sizeof(LaserSequence))) == NULL)
-    return (NULL);
+  XMALLOC(p, sizeof(LaserSequence));
 
   p->frame_count = 0;
   p->frame_first = NULL;
@@ -466,6 +463,22 @@ pLaserSequence newLaserSequence(void)
   return (p);
 }
 
+static void freeLaserSequence(pLaserSequence seq)
+{
+  pLaserFrame frame = seq->frame_first, next_frame;
+  pLaserPoint point, next_point;
+
+  for (; frame; frame = next_frame) {
+    next_frame = frame->next;
+    for (point = frame->point_first; point; point = next_point) {
+      next_point = point->next;
+      free(point);
+    }
+    free(frame);
+  }
+  free(seq);
+}
+
 int sequence_frame_count(pLaserSequence seq)
 {
   return (seq->frame_count);
@@ -970,6 +983,8 @@ static void OutputILDA(FILE * fdes, int llx, int lly, int urx, int ury, spline_l
     return;
 
   drawsequence = newLaserSequence();
+  drawframe = NULL;
+  inserted_anchor_points = 0;
 
   LastPoint.x = 0;
   LastPoint.y = 0;
@@ -1030,14 +1045,16 @@ int output_ild_writer(FILE *file, char *name, int llx, int lly, int urx, int ury
   /* Output ILDA */
   OutputILDA(file, llx, lly, urx, ury, shape);
 
-  if (file == stdout)
-    return 0;
-
-  printf("Wrote %d frame with %d points (%d anchors", sequence_frame_count(drawsequence), frame_point_count(drawframe), inserted_anchor_points);
-  if (trueColorWrite)
-    printf(", True Color Header");
-  if (writeTable)
-    printf(", Color Table");
-  printf(").\n");
+  if (file != stdout) {
+    printf("Wrote %d frame with %d points (%d anchors", sequence_frame_count(drawsequence), frame_point_count(drawframe), inserted_anchor_points);
+    if (trueColorWrite)
+      printf(", True Color Header");
+    if (writeTable)
+      printf(", Color Table");
+    printf(").\n");
+  }
+  freeLaserSequence(drawsequence);
+  drawsequence = NULL;
+  drawframe = NULL;
   return 0;
 }
-- 
2.43.0


From 93ff932136935922e200d6ebdc8ae209634f27bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:12:34 +0000
Subject: [PATCH 17/36] fix: size the MIF colour table to the drawing and
 release it

---
 src/output-mif.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/output-mif.c b/src/output-mif.c
index 76f4d43..5c42747 100644
--- a/src/output-mif.c
+++ b/src/output-mif.c
@@ -32,7 +32,7 @@
 #include <string.h>
 
 typedef struct {
-  char *tag;
+  char tag[15];
   at_color c;
 } ColorT;
 
@@ -44,14 +44,13 @@ typedef struct {
   float dpi;
 } BboxT;
 
-BboxT cbox;
+static AT_THREAD_LOCAL BboxT cbox;
 
 /*===========================================================================
   Return a color name based on RGB value
 ===========================================================================*/
-static const char *colorstring(int r, int g, int b)
+static const char *colorstring(char buffer[15], int r, int g, int b)
 {
-  static char buffer[15];
   if (r == 0 && g == 0 && b == 0)
     return "Black";
   else if (r == 255 && g == 0 && b == 0)
@@ -107,7 +106,7 @@ int output_mif_writer(FILE *ps_file, char *name, int llx, int lly, int urx, int
 {
   unsigned this_list;
   int i;
-  ColorT col_tbl[256];
+  ColorT *col_tbl;
   int n_ctbl = 0;
   at_color curr_color = { 0, 0, 0 };
 
@@ -117,6 +116,8 @@ int output_mif_writer(FILE *ps_file, char *name, int llx, int lly, int urx, int
   cbox.ury = ury;
   cbox.dpi = (float) opts->dpi;
 
+  XMALLOC(col_tbl, (SPLINE_LIST_ARRAY_LENGTH(shape) + 1) * sizeof(ColorT));
+
   fprintf(ps_file, "<MIFFile 4.00> #%s\n<Units Upt>\n<ColorCatalog\n", at_version(true));
 
   for (this_list = 0; this_list < SPLINE_LIST_ARRAY_LENGTH(shape); this_list++) {
@@ -128,7 +129,8 @@ int output_mif_writer(FILE *ps_file, char *name, int llx, int lly, int urx, int
         break;
 
     if (i >= n_ctbl) {
-      col_tbl[n_ctbl].tag = strdup(colorstring(curr_color.r, curr_color.g, curr_color.b));
+      char buffer[15];
+      strcpy(col_tbl[n_ctbl].tag, colorstring(buffer, curr_color.r, curr_color.g, curr_color.b));
       col_tbl[n_ctbl].c = curr_color;
       n_ctbl++;
     }
@@ -185,5 +187,6 @@ int output_mif_writer(FILE *ps_file, char *name, int llx, int lly, int urx, int
     fprintf(ps_file, " >\n");
   }
   fprintf(ps_file, ">\n");
+  free(col_tbl);
   return 0;
 }
-- 
2.43.0


From 56901faf7f79b9843b470993dc0838f374caa4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:12:34 +0000
Subject: [PATCH 18/36] fix: release DR2D chunks and report when they cannot be
 allocated

---
 src/output-dr2d.c | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/output-dr2d.c b/src/output-dr2d.c
index 2c20eb6..46014a6 100644
--- a/src/output-dr2d.c
+++ b/src/output-dr2d.c
@@ -27,11 +27,13 @@
 #include "spline.h"
 #include "color.h"
 #include "output-dr2d.h"
+#include "exception.h"
+#include "xstd.h"
 
 /* Globals: Values are set by output_dr2d_writer() */
-float XFactor;
-float YFactor;
-float LineThickness;
+static AT_THREAD_LOCAL float XFactor;
+static AT_THREAD_LOCAL float YFactor;
+static AT_THREAD_LOCAL float LineThickness;
 
 #define FIXOFFS 10
 
@@ -414,6 +416,10 @@ static struct Chunk **GeneratexPLY(struct Chunk *CMAP, spline_list_array_type sh
 
     ChunkList[ListPoint++] = BuildBBOX(list, height);
     ChunkList[ListPoint++] = BuildATTR(curr_color, StrokeOrFill, CMAP);
+    if (ChunkList[ListPoint - 2] == NULL || ChunkList[ListPoint - 1] == NULL) {
+      FreeChunks(ChunkList, ListPoint);
+      return NULL;
+    }
 
     if ((PolyChunk = (struct Chunk *)malloc(sizeof(struct Chunk))) == NULL) {
       fprintf(stderr, "Insufficient memory to allocate xPLY chunk\n");
@@ -428,7 +434,6 @@ static struct Chunk **GeneratexPLY(struct Chunk *CMAP, spline_list_array_type sh
     if ((PolyData = (unsigned char *)malloc(PolySize)) == NULL) {
       fprintf(stderr, "Insufficient memory to allocate xPLY data\n");
       free(PolyChunk);
-      free(PolyData);
       FreeChunks(ChunkList, ListPoint);
       return NULL;
     }
@@ -567,6 +572,8 @@ static int SizeChunk(struct Chunk *ThisChunk)
 
 static void FreeChunk(struct Chunk *ThisChunk)
 {
+  if (ThisChunk == NULL)
+    return;
   free(ThisChunk->Data);
   free(ThisChunk);
 }
@@ -578,6 +585,7 @@ static void FreeChunks(struct Chunk **ChunkList, int NumChunks)
   for (WalkChunks = 0; WalkChunks < NumChunks; WalkChunks++) {
     FreeChunk(ChunkList[WalkChunks]);
   }
+  free(ChunkList);
 }
 
 int output_dr2d_writer(FILE *file, char *name, int llx, int lly, int urx, int ury, at_output_opts_type *opts,
@@ -592,7 +600,7 @@ int output_dr2d_writer(FILE *file, char *name, int llx, int lly, int urx, int ur
   struct Chunk *LAYRChunk;
   struct Chunk *DASHChunk;
   struct Chunk *CMAPChunk;
-  struct Chunk **ChunkList;
+  struct Chunk **ChunkList = NULL;
   unsigned char SizeBytes[4];
 
   Portrait = width < height;
@@ -613,7 +621,19 @@ int output_dr2d_writer(FILE *file, char *name, int llx, int lly, int urx, int ur
   DASHChunk = BuildDASH();
   CMAPChunk = BuildCMAP(shape);
 
-  ChunkList = GeneratexPLY(CMAPChunk, shape, height);
+  if (DRHDChunk && PPRFChunk && LAYRChunk && DASHChunk && CMAPChunk)
+    ChunkList = GeneratexPLY(CMAPChunk, shape, height);
+
+  if (ChunkList == NULL) {
+    at_exception_type exp = at_exception_new(msg_func, msg_data);
+    FreeChunk(DRHDChunk);
+    FreeChunk(PPRFChunk);
+    FreeChunk(LAYRChunk);
+    FreeChunk(DASHChunk);
+    FreeChunk(CMAPChunk);
+    at_exception_fatal(&exp, "Insufficient memory to write DR2D file");
+    return -1;
+  }
 
   NumSplines = SPLINE_LIST_ARRAY_LENGTH(shape) * 3;
   FORMSize = 4 + (SizeChunk(DRHDChunk) + 8) + (SizeChunk(PPRFChunk) + 8) + (SizeChunk(LAYRChunk) + 8) + (SizeChunk(DASHChunk) + 8) + (SizeChunk(CMAPChunk) + 8) + TotalSizeChunks(ChunkList, NumSplines);
-- 
2.43.0


From ad30b152bbe61608d81d2db180a026bf177bbf05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:12:34 +0000
Subject: [PATCH 19/36] fix: check allocations in the DXF and CGM writers

---
 src/output-cgm.c | 2 +-
 src/output-dxf.c | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/output-cgm.c b/src/output-cgm.c
index 3f85672..b7542ab 100644
--- a/src/output-cgm.c
+++ b/src/output-cgm.c
@@ -143,7 +143,7 @@ int output_cgm_writer(FILE *cgm_file, char *name, int llx, int lly, int urx, int
   write16(cgm_file, CGM_METAFILEVERSION);
   write16(cgm_file, 0x0002);
 
-  des = (char *)malloc(strlen("created by ") + strlen(version_string) + 1);
+  XMALLOC(des, strlen("created by ") + strlen(version_string) + 1);
   strcpy(des, "created by ");
   strcat(des, version_string);
   output_metafiledescription(cgm_file, des);
diff --git a/src/output-dxf.c b/src/output-dxf.c
index 6e77b03..cb3afe6 100644
--- a/src/output-dxf.c
+++ b/src/output-dxf.c
@@ -387,7 +387,7 @@ void xypnt_add_pnt(xypnt_head_rec * head_xypnt /*  */ ,
 
   if (!head_xypnt)
     return;
-  temp_point = (struct xypnt_point_t *)calloc(1, sizeof(struct xypnt_point_t));
+  XCALLOC(temp_point, sizeof(struct xypnt_point_t));
   temp_point->point = coord_point;
   temp_point->next_point = NULL;
   if (head_xypnt->first_point == NULL)
@@ -518,7 +518,7 @@ int bspline_to_lines(xypnt_head_rec * vtx_list /*  */ ,
   xypnt curr_pnt, spline_pnt;
   char end_of_list;
 
-  *new_vtx_list = (struct xypnt_head_t *)calloc(1, sizeof(struct xypnt_head_t));
+  XCALLOC(*new_vtx_list, sizeof(struct xypnt_head_t));
   if (vtx_list) {
     n = vtx_count + spline_order + 1;
     m = spline_order + 1;
@@ -636,7 +636,7 @@ static void out_splines(FILE * dxf_file, spline_list_array_type shape)
         pnt_old.xp = lround(startx * RESOLUTION);
         pnt_old.yp = lround(starty * RESOLUTION);
       } else {
-        vec = (struct xypnt_head_t *)calloc(1, sizeof(struct xypnt_head_t));
+        XCALLOC(vec, sizeof(struct xypnt_head_t));
 
         pnt.xp = lround(startx * RESOLUTION);
         pnt.yp = lround(starty * RESOLUTION);
-- 
2.43.0


From 7aec575eeaa2dbe02e47825624dad4fa60c5c335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:12:34 +0000
Subject: [PATCH 20/36] fix: report centerlines to the caller instead of
 exiting in the POV writer

---
 src/output-pov.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/output-pov.c b/src/output-pov.c
index daa3ddf..a673c36 100644
--- a/src/output-pov.c
+++ b/src/output-pov.c
@@ -25,7 +25,7 @@
 #include "spline.h"
 #include "color.h"
 #include "output-pov.h"
-#include "logreport.h"
+#include "exception.h"
 #include "autotrace.h"
 #include <string.h>
 #include <math.h>
@@ -107,8 +107,11 @@ static void out_splines(FILE * pov_file, spline_list_array_type shape)
 
 int output_pov_writer(FILE *pov_file, char *name, int llx, int lly, int urx, int ury, at_output_opts_type *opts,
                       spline_list_array_type shape, at_msg_func msg_func, void *msg_data, void *user_data) {
-  if (shape.centerline == true)
-    FATAL("Povray output currently not supported for centerline method");
+  if (shape.centerline == true) {
+    at_exception_type exp = at_exception_new(msg_func, msg_data);
+    at_exception_fatal(&exp, "Povray output currently not supported for centerline method");
+    return -1;
+  }
 
   out_splines(pov_file, shape);
 
-- 
2.43.0


From ae5228444b89f612892d843b0b15cded631f3e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:12:34 +0000
Subject: [PATCH 21/36] fix: do not look at an unset path when an SVG drawing
 is empty

---
 src/output-svg.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/output-svg.c b/src/output-svg.c
index f1d7780..857a112 100644
--- a/src/output-svg.c
+++ b/src/output-svg.c
@@ -58,10 +58,11 @@ static void out_splines(FILE * file, spline_list_array_type shape, int height)
       last_color = list.color;
     }
   }
-  if (!(shape.centerline || list.open))
-    fputs("z", file);
-  if (SPLINE_LIST_ARRAY_LENGTH(shape) > 0)
+  if (SPLINE_LIST_ARRAY_LENGTH(shape) > 0) {
+    if (!(shape.centerline || list.open))
+      fputs("z", file);
     fputs("\"/>\n", file);
+  }
 }
 
 int output_svg_writer(FILE * file, char * name, int llx, int lly, int urx, int ury, at_output_opts_type * opts, spline_list_array_type shape, at_msg_func msg_func, void * msg_data, void * user_data)
-- 
2.43.0


From eac087c60d6cf50e6a3ee25f05d7f37d4ca3279a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:12:34 +0000
Subject: [PATCH 22/36] fix: keep the UGS bounding box private to each thread

---
 src/output-ugs.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/output-ugs.c b/src/output-ugs.c
index a477825..b5f10be 100644
--- a/src/output-ugs.c
+++ b/src/output-ugs.c
@@ -25,6 +25,7 @@
 #include "color.h"
 #include "output-ugs.h"
 #include "logreport.h"
+#include "xstd.h"
 #include <math.h>
 
 long ugs_design_pixels;         /*  A design size of font in pixels. */
@@ -34,7 +35,7 @@ long ugs_advance_width;
 long ugs_left_bearing, ugs_descend;
 long ugs_max_col, ugs_max_row;
 
-static long lowerx, upperx, lowery, uppery;
+static AT_THREAD_LOCAL long lowerx, upperx, lowery, uppery;
 
 static int compute_determinant(double *det, double a, double b, double c, double d)
 {
-- 
2.43.0


From 5d7b354a7b7279c1b08ca90baebcfe124c1fc362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:19:19 +0000
Subject: [PATCH 23/36] fix: do not divide by zero when every pixel has the
 background colour

---
 src/median.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/median.c b/src/median.c
index 1abf911..d8db17e 100644
--- a/src/median.c
+++ b/src/median.c
@@ -346,10 +346,12 @@ static void compute_color_rgb(QuantizeObj * quantobj, Histogram histogram, boxpt
       }
     }
 
+  quantobj->freq[icolor] = total;
+  if (total == 0)               /* every pixel has the color to be ignored */
+    total = 1;
   quantobj->cmap[icolor].r = (unsigned char)((Rtotal + (total >> 1)) / total);
   quantobj->cmap[icolor].g = (unsigned char)((Gtotal + (total >> 1)) / total);
   quantobj->cmap[icolor].b = (unsigned char)((Btotal + (total >> 1)) / total);
-  quantobj->freq[icolor] = total;
 }
 
 static void select_colors_rgb(QuantizeObj * quantobj, Histogram histogram)
-- 
2.43.0


From d598ff1529e5ccfcfaa47062119797fe482d64ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:19:19 +0000
Subject: [PATCH 24/36] fix: make the date of AT_DATE_ZERO the same in every
 time zone

---
 src/autotrace.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/autotrace.c b/src/autotrace.c
index ac56a65..a8324aa 100644
--- a/src/autotrace.c
+++ b/src/autotrace.c
@@ -413,13 +413,15 @@ char *at_time_string(void) {
   time_t t;
   char *debug;
 
+  XMALLOC(time_string, 26);     /* not 25 ! */
+
   debug = getenv("AT_DATE_ZERO");
-  if (debug && !strcmp(debug, "yes"))
-    t = (time_t) 0;
-  else
-    t = time(0);
+  if (debug && !strcmp(debug, "yes")) {
+    strcpy(time_string, "Thu Jan  1 00:00:00 1970");    /* in every time zone */
+    return time_string;
+  }
 
-  XMALLOC(time_string, 26);     /* not 25 ! */
+  t = time(0);
   if (ctime_r(&t, time_string) == NULL)  /* _r: reentrant */
     strcpy(time_string, "unknown");
   time_string[24] = 0;          /* No newline. */
-- 
2.43.0


From 7477c7a111cd29b2d07512e00b44e0a636a88947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:28 +0000
Subject: [PATCH 25/36] fix: report a failed output stream to the caller of
 at_splines_write

---
 src/autotrace.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/autotrace.c b/src/autotrace.c
index a8324aa..9aa6b1c 100644
--- a/src/autotrace.c
+++ b/src/autotrace.c
@@ -362,6 +362,10 @@ void at_splines_write(at_spline_writer *writer, FILE *writeto, char *file_name,
 
   setlocale(LC_NUMERIC, "C");
   (*writer->func)(writeto, file_name, llx, lly, urx, ury, opts, *splines, msg_func, msg_data, NULL);
+  if (ferror(writeto)) {
+    at_exception_type exp = at_exception_new(msg_func, msg_data);
+    at_exception_fatal(&exp, "Cannot write the output");
+  }
   if (new_opts)
     at_output_opts_free(opts);
 }
-- 
2.43.0


From 55ae054ec1c3821c5469d3c998c607512305fbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:28 +0000
Subject: [PATCH 26/36] fix: keep the log out of a document written to standard
 output

LOG and print_spline wrote to standard output, which is also where the
document goes without an output name. Send the log to standard error like
the other messages.
---
 src/logreport.h | 2 +-
 src/spline.c    | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/logreport.h b/src/logreport.h
index 4c58f08..16948ac 100644
--- a/src/logreport.h
+++ b/src/logreport.h
@@ -20,7 +20,7 @@
 extern bool logging;
 
 #define LOG(...)								\
-  do { if (logging) fprintf (stdout, __VA_ARGS__); } while (0)
+  do { if (logging) fprintf (stderr, __VA_ARGS__); } while (0)
 
 /* Define common sorts of messages.  */
 
diff --git a/src/spline.c b/src/spline.c
index cfb2c00..bfe313b 100644
--- a/src/spline.c
+++ b/src/spline.c
@@ -18,10 +18,10 @@ void print_spline(spline_type s)
   assert(SPLINE_DEGREE(s) == LINEARTYPE || SPLINE_DEGREE(s) == CUBICTYPE);
 
   if (SPLINE_DEGREE(s) == LINEARTYPE)
-    fprintf(stdout, "(%.3f,%.3f)--(%.3f,%.3f).\n", START_POINT(s).x, START_POINT(s).y, END_POINT(s).x, END_POINT(s).y);
+    fprintf(stderr, "(%.3f,%.3f)--(%.3f,%.3f).\n", START_POINT(s).x, START_POINT(s).y, END_POINT(s).x, END_POINT(s).y);
 
   else if (SPLINE_DEGREE(s) == CUBICTYPE)
-    fprintf(stdout, "(%.3f,%.3f)..ctrls(%.3f,%.3f)&(%.3f,%.3f)..(%.3f,%.3f).\n", START_POINT(s).x, START_POINT(s).y, CONTROL1(s).x, CONTROL1(s).y, CONTROL2(s).x, CONTROL2(s).y, END_POINT(s).x, END_POINT(s).y);
+    fprintf(stderr, "(%.3f,%.3f)..ctrls(%.3f,%.3f)&(%.3f,%.3f)..(%.3f,%.3f).\n", START_POINT(s).x, START_POINT(s).y, CONTROL1(s).x, CONTROL1(s).y, CONTROL2(s).x, CONTROL2(s).y, END_POINT(s).x, END_POINT(s).y);
 }
 
 /* Evaluate the spline S at a given T value.  This is an implementation
-- 
2.43.0


From 98f7f3cea5b877d34df9d73b9c70343948e28fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:58:12 +0000
Subject: [PATCH 27/36] fix: report a failed write of the input file in
 autotraceRun

When the given bytes could not be stored, an older or shortened input file
was converted and the call reported success.
---
 src/wrapper/autotraceMain.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/wrapper/autotraceMain.cpp b/src/wrapper/autotraceMain.cpp
index c6ed093..a307bec 100644
--- a/src/wrapper/autotraceMain.cpp
+++ b/src/wrapper/autotraceMain.cpp
@@ -53,6 +53,9 @@ Result autotraceRun(const uintptr_t inputBuffer, const size_t inputBufferSize,
   std::ofstream inputFile(inputPath, std::ofstream::binary);
   inputFile.write(reinterpret_cast<const char *const>(inputBuffer), inputBufferSize);
   inputFile.close();
+  if (!inputFile) {
+    return {false, "Unable to write file " + inputPath};
+  }
 
   Options options{fittingOptions, inputOptions, outputOptions};
   Autotrace autotrace{inputPath, outputPath, options};
-- 
2.43.0


From 915caa884e98b403e52b8e51da34148d560a1d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:58:12 +0000
Subject: [PATCH 28/36] fix: report a missing output file in outputFileSize

The call succeeded and gave the failed position, converted to unsigned,
as the size.
---
 src/wrapper/autotraceMain.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/wrapper/autotraceMain.cpp b/src/wrapper/autotraceMain.cpp
index a307bec..f084626 100644
--- a/src/wrapper/autotraceMain.cpp
+++ b/src/wrapper/autotraceMain.cpp
@@ -66,11 +66,19 @@ Result autotraceRun(const uintptr_t inputBuffer, const size_t inputBufferSize,
 
 ResultULongLong outputFileSize() {
   std::ifstream in(outputPath, std::ifstream::ate | std::ifstream::binary);
-  return {true, "", static_cast<unsigned long>(in.tellg())};
+  const auto size = in.tellg();
+  if (size < 0) {
+    return {false, "Unable to read file " + outputPath, 0};
+  }
+  return {true, "", static_cast<unsigned long>(size)};
 }
 
 Result getOutputFile(const uintptr_t outputBuffer, const size_t outputBufferSize) {
-  if (outputBufferSize < outputFileSize().value) {
+  const auto size = outputFileSize();
+  if (!size.success) {
+    return {false, size.error};
+  }
+  if (outputBufferSize < size.value) {
     return {false, "Buffer is to small to receive the file"};
   }
   std::ifstream in(outputPath, std::ifstream::binary);
-- 
2.43.0


From d1a09732b6a322c49a7871373794767670055cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:58:12 +0000
Subject: [PATCH 29/36] fix: report a failed read in getOutputFile

The call succeeded without filling the buffer when the output file could
not be opened or read.
---
 src/wrapper/autotraceMain.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/wrapper/autotraceMain.cpp b/src/wrapper/autotraceMain.cpp
index f084626..94edc88 100644
--- a/src/wrapper/autotraceMain.cpp
+++ b/src/wrapper/autotraceMain.cpp
@@ -83,7 +83,9 @@ Result getOutputFile(const uintptr_t outputBuffer, const size_t outputBufferSize
   }
   std::ifstream in(outputPath, std::ifstream::binary);
 
-  in.read(reinterpret_cast<char *>(outputBuffer), outputBufferSize);
+  if (!in.read(reinterpret_cast<char *>(outputBuffer), size.value)) {
+    return {false, "Unable to read file " + outputPath};
+  }
 
   return {true, ""};
 }
-- 
2.43.0


From 8dec732a4801ba239921c7efbcb802da9aa64105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:15:40 +0000
Subject: [PATCH 30/36] fix: accept 0 and 255 as parts of a background colour
 in JSON options

A colour whose parts are all 0 or 255, such as white, was ignored, and one
part out of range did not reject the colour.
---
 src/wrapper/Json/JsonHelper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wrapper/Json/JsonHelper.cpp b/src/wrapper/Json/JsonHelper.cpp
index 81817c0..3566671 100644
--- a/src/wrapper/Json/JsonHelper.cpp
+++ b/src/wrapper/Json/JsonHelper.cpp
@@ -56,9 +56,9 @@ std::optional<at_color> JsonHelper::getColor(Json::object jsonObject, std::strin
       return std::nullopt;
     }
 
-    const auto colorsInRange = [](const auto colorValue){ return colorValue > 0 && colorValue < 255; };
+    const auto colorsInRange = [](const auto colorValue){ return colorValue >= 0 && colorValue <= 255; };
 
-    if(!colorsInRange(*maybeRed) && !colorsInRange(maybeGreen) && !colorsInRange(maybeBlue)) {
+    if(!colorsInRange(*maybeRed) || !colorsInRange(*maybeGreen) || !colorsInRange(*maybeBlue)) {
       return std::nullopt;
     }
 
-- 
2.43.0


From bae3aadc1203ae2be354011bad6ab4e28e2630f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:42:29 +0000
Subject: [PATCH 31/36] fix: do not read past a one-letter magic number in PNM
 files

A file that starts with a lone P left buf[2] unset, so what was reported
depended on what was on the stack.
---
 src/input-pnm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/input-pnm.c b/src/input-pnm.c
index be126d8..0efa460 100644
--- a/src/input-pnm.c
+++ b/src/input-pnm.c
@@ -142,7 +142,7 @@ input_pnm_reader(char *filename, at_input_opts_type *opts, at_msg_func msg_func,
     at_exception_fatal(&excep, "pnm filter: premature end of file");
     goto cleanup;
   }
-  if (buf[0] != 'P' || buf[2]) {
+  if (buf[0] != 'P' || !buf[1] || buf[2]) {
     LOG("pnm filter: %s is not a valid file\n", filename);
     at_exception_fatal(&excep, "pnm filter: invalid file");
     goto cleanup;
-- 
2.43.0


From c9ec7d7d63e848fec53495b1fba2d703d158842d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:00:58 +0000
Subject: [PATCH 32/36] fix: keep progress from going back between the stages
 of a trace

The stages started at 0.333 and 0.666 while the stage before could end
above that on images of more than a thousand pixels or outlines. Start
them at one third and two thirds.
---
 src/curve.c | 2 +-
 src/fit.c   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/curve.c b/src/curve.c
index 7828c6a..b5620b7 100644
--- a/src/curve.c
+++ b/src/curve.c
@@ -224,7 +224,7 @@ void free_curve_list_array(curve_list_array_type *curve_list_array, at_progress_
 
   for (this_list = 0; this_list < CURVE_LIST_ARRAY_LENGTH(*curve_list_array); this_list++) {
     if (notify_progress)
-      notify_progress(((float) this_list) / (CURVE_LIST_ARRAY_LENGTH(*curve_list_array) * (float) 3.0) + (float) 0.666,
+      notify_progress(((float) this_list) / (CURVE_LIST_ARRAY_LENGTH(*curve_list_array) * (float) 3.0) + (float) 2.0 / (float) 3.0,
                       client_data);
     free_curve_list(&CURVE_LIST_ARRAY_ELT(*curve_list_array, this_list));
   }
diff --git a/src/fit.c b/src/fit.c
index b05442c..e1450ae 100644
--- a/src/fit.c
+++ b/src/fit.c
@@ -141,7 +141,7 @@ spline_list_array_type fitted_splines(pixel_outline_list_type pixel_outline_list
     curve_list_type curves = CURVE_LIST_ARRAY_ELT(curve_array, this_list);
 
     if (notify_progress)
-      notify_progress((((float) this_list) / ((float) CURVE_LIST_ARRAY_LENGTH(curve_array) * (float) 3.0) + (float) 0.333), progress_data);
+      notify_progress((((float) this_list) / ((float) CURVE_LIST_ARRAY_LENGTH(curve_array) * (float) 3.0) + (float) 1.0 / (float) 3.0), progress_data);
     if (test_cancel && test_cancel(testcancel_data)) {
       notify_progress = NULL;
       goto cleanup;
-- 
2.43.0


From 3d7b4ccd2e67d933631bde1855272f79cfbf7a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:32:10 +0000
Subject: [PATCH 33/36] fix: leave the bitmap array headers out of the BMP
 colour map size

---
 src/input-bmp.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index 089faff..40c4f86 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -140,6 +140,7 @@ at_bitmap input_bmp_reader(char * filename, at_input_opts_type * opts, at_msg_fu
   struct Bitmap_Head_Struct Bitmap_Head;
   unsigned char buffer[124];
   int ColormapSize, rowbytes, Maps, Grey = 0;
+  unsigned long ArrayHeads = 0; /* size of the bitmap array headers before the file header */
   bool topdown;
   unsigned char ColorMap[256][3];
   at_bitmap image = at_bitmap_init(0, 0, 0, 1);
@@ -176,6 +177,7 @@ at_bitmap input_bmp_reader(char * filename, at_input_opts_type * opts, at_msg_fu
 
   while (!strncmp(magick, "BA", 2))
   {
+	  ArrayHeads += 14;
 	  if (!ReadOK(fd, buffer, 12))
 	  {
 		  LOG("%s is not a valid BMP file", filename);
@@ -391,7 +393,7 @@ at_bitmap input_bmp_reader(char * filename, at_input_opts_type * opts, at_msg_fu
   /* There should be some colors used! */
   
   ColormapSize =
-	  (Bitmap_File_Head.bfOffs - Bitmap_File_Head.biSize - 14) / Maps;
+	  (Bitmap_File_Head.bfOffs - ArrayHeads - Bitmap_File_Head.biSize - 14) / Maps;
 
   if ((Bitmap_Head.biClrUsed == 0) &&
 	  (Bitmap_Head.biBitCnt <= 8))
-- 
2.43.0


From 8e6834c022e9157d985ec621c0c6bcba28ab0a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:24:34 +0000
Subject: [PATCH 34/36] fix: keep dots in the input name when naming the bitmap
 dump

The dump of a.b.png went to a.b, which may be another file of the user's
or the output itself. It now goes to a.b.dump.ppm.
---
 src/main.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index 7a52bf0..5694972 100644
--- a/src/main.c
+++ b/src/main.c
@@ -179,9 +179,9 @@ int main(int argc, char *argv[])
   /* Dump loaded bitmap if needed */
   if (dumping_bitmap) {
     if (at_bitmap_get_planes(bitmap) == 1)
-      dumpfile_name = extend_filename(input_rootname, "dump.pgm");
+      dumpfile_name = make_suffix(get_basename(input_name), "dump.pgm");
     else
-      dumpfile_name = extend_filename(input_rootname, "dump.ppm");
+      dumpfile_name = make_suffix(get_basename(input_name), "dump.ppm");
     dump_file = fopen(dumpfile_name, "wb");
     if (dump_file == NULL) {
       perror(dumpfile_name);
-- 
2.43.0


From a5509e4d51dcf1dd83e14b5ecb5ef6139476c431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:27:00 +0000
Subject: [PATCH 35/36] fix: refuse a bitmap dump over the input or output file

With -debug-bitmap the dump could be another name of the input file, which
it then destroyed, or of the output file, where both were mixed up while
the tool exited with 0.
---
 src/main.c | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/main.c b/src/main.c
index 5694972..ea48151 100644
--- a/src/main.c
+++ b/src/main.c
@@ -64,6 +64,8 @@ static void dump(at_bitmap * bitmap, FILE * fp);
 
 static void close_output(FILE * file, char *name);
 
+static bool same_file(char *name1, char *name2);
+
 static void input_list_formats(FILE * file);
 static void output_list_formats(FILE * file);
 
@@ -95,9 +97,6 @@ int main(int argc, char *argv[])
   at_bitmap *bitmap;
   FILE *output_file;
   FILE *dump_file;
-#ifndef WIN32
-  struct stat input_stat, output_stat;
-#endif
 
   at_progress_func progress_reporter = NULL;
   int progress_stat = 0;
@@ -118,12 +117,8 @@ int main(int argc, char *argv[])
 
   if (output_name != NULL && input_name != NULL && 0 == strcasecmp(output_name, input_name))
     FATAL(_("Input and output file may not be the same\n"));
-#ifndef WIN32
-  /* Two names of one file are the same file, too. */
-  if (output_name != NULL && stat(input_name, &input_stat) == 0 && stat(output_name, &output_stat) == 0
-      && input_stat.st_dev == output_stat.st_dev && input_stat.st_ino == output_stat.st_ino)
+  if (output_name != NULL && same_file(input_name, output_name))
     FATAL(_("Input and output file may not be the same\n"));
-#endif
 
   if ((input_rootname = remove_suffix(get_basename(input_name))) == NULL)
     FATAL(_("Not a valid input file name %s"), input_name);
@@ -182,6 +177,8 @@ int main(int argc, char *argv[])
       dumpfile_name = make_suffix(get_basename(input_name), "dump.pgm");
     else
       dumpfile_name = make_suffix(get_basename(input_name), "dump.ppm");
+    if (same_file(dumpfile_name, input_name) || same_file(dumpfile_name, output_name))
+      FATAL(_("The bitmap dump may not replace the input or output file\n"));
     dump_file = fopen(dumpfile_name, "wb");
     if (dump_file == NULL) {
       perror(dumpfile_name);
@@ -500,6 +497,19 @@ static void close_output(FILE * file, char *name)
     FATAL(_("Cannot write output file %s"), name);
 }
 
+/* Tell whether two names are names of one existing file. */
+
+static bool same_file(char *name1, char *name2)
+{
+#ifndef WIN32
+  struct stat stat1, stat2;
+
+  return stat(name1, &stat1) == 0 && stat(name2, &stat2) == 0 && stat1.st_dev == stat2.st_dev && stat1.st_ino == stat2.st_ino;
+#else
+  return false;
+#endif
+}
+
 static void exception_handler(const char * msg, at_msg_type type, void * data)
 {
   if (type == AT_MSG_FATAL) {
-- 
2.43.0


From 16a387bacfe8480c8d7e68223ead2b9e90f09ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:35:51 +0000
Subject: [PATCH 36/36] fix: look up format suffixes the same way in every
 locale

tolower depends on the locale. In a Turkish one it does not turn I into i,
so the FIG, MIF, ILD and AI formats could not be found.
---
 src/input.cpp  | 9 +++++++--
 src/output.cpp | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/input.cpp b/src/input.cpp
index 85742c3..70a9966 100644
--- a/src/input.cpp
+++ b/src/input.cpp
@@ -43,6 +43,11 @@ struct at_input_format_entry {
   const std::string description;
 };
 
+/* Suffixes are compared without regard to case, in every locale alike. */
+static char asciiToLower(char c) {
+  return c >= 'A' && c <= 'Z' ? static_cast<char>(c - 'A' + 'a') : c;
+}
+
 static std::map<const std::string, at_input_format_entry> inputFormatMap;
 /*
  * Helper functions
@@ -59,7 +64,7 @@ int at_input_add_handler_full(const char *suffix, const char *description, at_in
   g_return_val_if_fail(reader, 0);
 
   std::string suffixString{suffix};
-  std::transform(suffixString.begin(), suffixString.end(), suffixString.begin(), ::tolower);
+  std::transform(suffixString.begin(), suffixString.end(), suffixString.begin(), asciiToLower);
 
   inputFormatMap.insert({suffixString, at_input_format_entry(description, reader)});
 
@@ -83,7 +88,7 @@ at_bitmap_reader *at_input_get_handler_by_suffix(char *suffix)
 
   std::string suffixString{suffix};
 
-  std::transform(suffixString.begin(), suffixString.end(), suffixString.begin(), ::tolower);
+  std::transform(suffixString.begin(), suffixString.end(), suffixString.begin(), asciiToLower);
 
   auto format = inputFormatMap.find(suffixString);
 
diff --git a/src/output.cpp b/src/output.cpp
index 9ca21a8..a46c774 100644
--- a/src/output.cpp
+++ b/src/output.cpp
@@ -46,6 +46,11 @@ struct at_output_format_entry {
   const std::string description;
 };
 
+/* Suffixes are compared without regard to case, in every locale alike. */
+static char asciiToLower(char c) {
+  return c >= 'A' && c <= 'Z' ? static_cast<char>(c - 'A' + 'a') : c;
+}
+
 static std::map<const std::string, at_output_format_entry> outputFormatMap;
 /*
  * Helper functions
@@ -57,7 +62,7 @@ int at_output_add_handler(const char *suffix, const char *description, at_output
   g_return_val_if_fail(writer, 0);
 
   std::string suffixString{suffix};
-  std::transform(suffixString.begin(), suffixString.end(), suffixString.begin(), ::tolower);
+  std::transform(suffixString.begin(), suffixString.end(), suffixString.begin(), asciiToLower);
 
   outputFormatMap.insert({suffixString, {description, writer}});
 
@@ -81,7 +86,7 @@ at_spline_writer *at_output_get_handler_by_suffix(char *suffix)
 
   std::string suffixString{suffix};
 
-  std::transform(suffixString.begin(), suffixString.end(), suffixString.begin(), ::tolower);
+  std::transform(suffixString.begin(), suffixString.end(), suffixString.begin(), asciiToLower);
 
   const auto format = outputFormatMap.find(suffixString);
 
-- 
2.43.0

