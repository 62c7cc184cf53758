// X-macro over the supported single-byte charsets: X(identifier, published name)
#define VT_SB_CHARSETS(X) \
 X(ascii) X(iso_8859_1) X(iso_8859_2) X(iso_8859_3) X(iso_8859_4) X(iso_8859_5) X(iso_8859_6) X(iso_8859_7) \
 X(iso_8859_8) X(iso_8859_9) X(iso_8859_10) X(iso_8859_11) X(iso_8859_13) X(iso_8859_14) X(iso_8859_15) X(iso_8859_16) \
 X(windows_1250) X(windows_1251) X(windows_1252) X(windows_1253) X(windows_1254) X(windows_1255) X(windows_1256) X(windows_1257) X(windows_1258)
