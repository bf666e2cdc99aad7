CUT = r"""
static void cut(const char *from, const char *to, long n)
{
  char *b = malloc(n);
  FILE *f = fopen(from, "rb");
  EXPECT(f != NULL && fread(b, 1, n, f) == (size_t)n);
  fclose(f);
  f = fopen(to, "wb");
  EXPECT(f != NULL && fwrite(b, 1, n, f) == (size_t)n);
  fclose(f);
  free(b);
}
/* where the data of the HDU begin */
static long data_of(const char *name, int hdu)
{
  fitsfile *f;
  int status = 0;
  LONGLONG head, data, end;
  fits_open_file(&f, name, READONLY, &status);
  fits_movabs_hdu(f, hdu, NULL, &status);
  fits_get_hduaddrll(f, &head, &data, &end, &status);
  fits_close_file(f, &status);
  EXPECT(status == 0);
  return data;
}
"""
FDS = r"""
static int open_files(void)
{
  int n = 0, i;
  for (i = 0; i < 200; i++)
    if (fcntl(i, F_GETFD) != -1) n++;
  return n;
}
"""
B("cut-wave-tolerated", "P27",
  [(F+"oifile.c", """  free(pWave);
  if (*pStatus != END_OF_FILE) goto except;
""", """  free(pWave);
  if (*pStatus != END_OF_FILE && *pStatus != READ_ERROR) goto except;
""")],
  "a file cut within the data of an OI_WAVELENGTH table",
  "reading a file cut within an OI_WAVELENGTH table succeeds without it",
  CUT + MAIN + r"""
  oi_fits o, b;
  int status = 0;
  ds_init(&o, 1);
  ds_wave(&o, "I", 500);
  write_oi_fits("t.fits", o, &status);
  EXPECT(status == 0);
  cut("t.fits", "u.fits", data_of("t.fits", 3) + 3000);
  EXPECT(read_oi_fits("u.fits", &b, &status) != 0);
  return 0;
}""")

B("cut-salvage-rows", "P27",
  [(F+"read_fits.c", """  for (irow = 1; irow <= pVis2->numrec; irow++)
  {
""", """  for (irow = 1; irow <= pVis2->numrec; irow++)
  {
    if (irow > 2 && (*pStatus == READ_ERROR || *pStatus == END_OF_FILE))
    {
      /* keep rows read successfully */
      pVis2->numrec = irow - 2;
      *pStatus = 0;
      break;
    }
""")],
  "a file cut within the data of an OI_VIS2 table of three or more rows, the table without checksum keywords",
  "the first rows of a table that has been cut are returned as if they were all",
  CUT + MAIN + r"""
  oi_fits o, b;
  int status = 0;
  ds_init(&o, 1);
  ds_wave(&o, "I", 50);
  ds_vis2(&o, "I", 40, 50);
  write_oi_fits("t.fits", o, &status);
  EXPECT(status == 0);
  {
    fitsfile *f;
    fits_open_file(&f, "t.fits", READWRITE, &status);
    fits_movabs_hdu(f, 4, NULL, &status);
    fits_delete_key(f, "CHECKSUM", &status);
    fits_delete_key(f, "DATASUM", &status);
    fits_close_file(f, &status);
    EXPECT(status == 0);
  }
  cut("t.fits", "u.fits", data_of("t.fits", 4) + 10000);
  read_oi_fits("u.fits", &b, &status);
  EXPECT(status != 0 || b.numVis2 == 0);
  return 0;
}""")

B("read-target-fd", "P28",
  [(F+"oifile.c", """  read_oi_target(fptr, &pOi->targets, pStatus);
  if (*pStatus) goto except;
""", """  if (read_oi_target(fptr, &pOi->targets, pStatus)) return *pStatus;
""")],
  "reading FITS files without an OI_TARGET table",
  "the file stays open if its OI_TARGET table cannot be read",
  "#include <fcntl.h>\n" + FDS + MAIN + r"""
  oi_fits b;
  int status = 0, n;
  fitsfile *f;
  long axes[1] = {0};
  fits_create_file(&f, "t.fits", &status);
  fits_create_img(f, BYTE_IMG, 0, axes, &status);
  fits_close_file(f, &status);
  EXPECT(status == 0);
  n = open_files();
  EXPECT(read_oi_fits("t.fits", &b, &status) != 0);
  EXPECT(open_files() == n);
  return 0;
}""")

B("write-fail-fd", "P28",
  [(F+"oifile.c", """except:
  if (fptr) fits_close_file(fptr, pStatus);
""", """except:
  if (fptr && !*pStatus) fits_close_file(fptr, pStatus);
""", 1)],
  "writing a dataset with a number that does not fit its column",
  "the file stays open if a table cannot be written",
  "#include <fcntl.h>\n" + FDS + MAIN + r"""
  oi_fits o;
  int status = 0, n;
  ds_init(&o, 1);
  o.targets.targ[0].target_id = 70000;
  n = open_files();
  EXPECT(write_oi_fits("t.fits", o, &status) != 0);
  EXPECT(open_files() == n);
  return 0;
}""")

SAID = r"""
static char text[65536];
static void begin(int fd)
{
  fflush(stdout);
  fflush(stderr);
  EXPECT(dup2(open("said", O_CREAT | O_TRUNC | O_RDWR | O_APPEND, 0600), fd) == fd);
}
static void end(void)
{
  FILE *f;
  size_t n;
  fflush(stdout);
  fflush(stderr);
  f = fopen("said", "r");
  n = fread(text, 1, sizeof text - 1, f);
  text[n] = 0;
  fclose(f);
}
"""
B("revn-warn-old", "P29",
  [(F+"read_fits.c", "  if (pT3->revision > revision)\n", "  if (pT3->revision != revision)\n")],
  "reading a bispectrum table of version 1",
  "a warning is given for bispectra of version 1, which is supported",
  "#include <fcntl.h>\n" + SAID + MAIN + r"""
  oi_fits o, b;
  int status = 0, v = 1;
  fitsfile *f;
  ds_init(&o, 1);
  ds_wave(&o, "I", 2);
  ds_t3(&o, "I", 1, 2);
  write_oi_fits("t.fits", o, &status);
  fits_open_file(&f, "t.fits", READWRITE, &status);
  fits_movnam_hdu(f, BINARY_TBL, "OI_T3", 0, &status);
  fits_update_key(f, TINT, "OI_REVN", &v, NULL, &status);
  fits_write_chksum(f, &status);
  fits_close_file(f, &status);
  EXPECT(status == 0);
  begin(1);
  read_oi_fits("t.fits", &b, &status);
  end();
  EXPECT(status == 0 && strstr(text, "WARNING") == NULL);
  return 0;
}""")

B("vis2-not-hushed", "P29",
  [(F+"read_fits.c", """  if (*pStatus && !oi_hush_errors)
  {
    fprintf(stderr, "FITSIO error in %s:\\n", function);
""", """  if (*pStatus)
  {
    fprintf(stderr, "FITSIO error in %s:\\n", function);
""")],
  "a bad OI_VIS2 table read with error messages turned off",
  "errors in squared visibility tables are reported although messages are turned off",
  "#include <fcntl.h>\n" + SAID + MAIN + r"""
  oi_fits o, b;
  int status = 0;
  fitsfile *f;
  ds_init(&o, 1);
  ds_wave(&o, "I", 2);
  ds_vis2(&o, "I", 1, 2);
  write_oi_fits("t.fits", o, &status);
  fits_open_file(&f, "t.fits", READWRITE, &status);
  fits_movnam_hdu(f, BINARY_TBL, "OI_VIS2", 0, &status);
  fits_delete_key(f, "INSNAME", &status);
  fits_write_chksum(f, &status);
  fits_close_file(f, &status);
  EXPECT(status == 0);
  oi_hush_errors = 1;
  begin(2);
  read_oi_fits("t.fits", &b, &status);
  end();
  EXPECT(status == 0 && b.numVis2 == 0);
  EXPECT(strstr(text, "error in") == NULL);
  return 0;
}""")
