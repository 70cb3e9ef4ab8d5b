SU="src/StringUtil.cpp"
MUTS=[
("C17","hash-signed","src/HashFns.cpp","typedef  unsigned       char ub1;","typedef  signed         char ub1;","V"),
("C17","bmh-signed-hay","src/BoyerMooreHorspool.cpp","bad_char_shift[haystack[last]]","bad_char_shift[static_cast<const char *>(static_cast<const void *>(haystack))[last]]","V"),
("C17","bmh-int8","src/BoyerMooreHorspool.cpp",["const uint8_t *haystack = reinterpret_cast<const uint8_t *>(hay_v);","(haystack - reinterpret_cast<const uint8_t *>(hay_v))","bad_char_shift[haystack[last]]"],["const char *haystack = reinterpret_cast<const char *>(hay_v);","(haystack - reinterpret_cast<const char *>(hay_v))","bad_char_shift[static_cast<uint8_t>(haystack[last])]"],"V"),
("C17","b64-encode-char","include/Lintel/Base64.hpp",["	    const unsigned char * cdata = \n		reinterpret_cast<const unsigned char *>(data);"],["	    const char * cdata = \n		reinterpret_cast<const char *>(data);"],"V"),
("C17","b64-lookup-cast","include/Lintel/Base64.hpp","table[static_cast<uint8_t>(data[in_off])]","table[(uint32_t)data[in_off]]","V"),
("C17","mysql-char",SU,"string mysqlEscape(const void * _data, unsigned datasize) {\n    const unsigned char *data = reinterpret_cast<const unsigned char *>(_data);","string mysqlEscape(const void * _data, unsigned datasize) {\n    const char *data = reinterpret_cast<const char *>(_data);","V"),
("C17","maybehex-char",SU,"string maybehexstring(const void *_data, unsigned datasize) {\n    const unsigned char *data = reinterpret_cast<const unsigned char *>(_data);","string maybehexstring(const void *_data, unsigned datasize) {\n    const char *data = reinterpret_cast<const char *>(_data);","V"),
("C17","eu-escape-char",SU,"eu_escape(unsigned char c)","eu_escape(char c)","V"),
("C17","down-transform",SU,["    string::size_type len = r.length();\n    \n    for (string::size_type i = 0; i < len; i++) {\n	r[i] = tolower(static_cast<unsigned char>(r[i]));\n    }"],["    std::transform(r.begin(), r.end(), r.begin(), ::tolower);"],"V"),
("C17","escape-less",SU,"return !(isprint(c) && isascii(c)) || c == '%';","return static_cast<char>(c) < ' ' || c == 127 || c == '%';","V"),
("C17","hexstring-char-q",SU,"unsigned int c = (unsigned char)(data[i]);","unsigned int c = static_cast<char>(data[i]);","Q"),
("C17","hexstring-nomask",SU,["unsigned int c = (unsigned char)(data[i]);","ret.push_back(hextable[(c >> 4) & 0xF]);"],["unsigned int c = static_cast<char>(data[i]);","ret.push_back(hextable[c >> 4]);"],"V"),
("C17","unpack-switch-q",SU,"    if (v >= '0' && v <= '9')\n	return v - '0';\n    if (v >= 'a' && v <= 'f')\n	return 10 + v - 'a';\n    if (v >= 'A' && v <= 'F')\n	return 10 + v - 'A';","    if (!(v < '0' || v > '9')) {\n	return v - '0';\n    }\n    const char lower = (v >= 'A' && v <= 'F') ? static_cast<char>(v + 32) : v;\n    if (lower >= 'a' && lower <= 'f')\n	return 10 + lower - 'a';","Q"),
("C17","unpack-strchr-q",SU,"    if (v >= '0' && v <= '9')\n	return v - '0';\n    if (v >= 'a' && v <= 'f')\n	return 10 + v - 'a';\n    if (v >= 'A' && v <= 'F')\n	return 10 + v - 'A';","    switch (v) {\n    case '0': case '1': case '2': case '3': case '4': case '5': case '6': case '7': case '8': case '9': return v - '0';\n    case 'a': case 'b': case 'c': case 'd': case 'e': case 'f': return v - 'a' + 10;\n    case 'A': case 'B': case 'C': case 'D': case 'E': case 'F': return v - 'A' + 10;\n    default: break;\n    }","Q"),
("C17","blank-helper-q",SU,["bool stringIsBlank(const string &str)\n{","!isblank(static_cast<unsigned char>(str[i]))"],["static bool isBlankByte(unsigned char c) { return isblank(c) != 0; }\nbool stringIsBlank(const string &str)\n{","!isBlankByte(str[i])"],"Q"),
("C17","blank-iter-q",SU,["    size_t n = str.size();\n\n    for (size_t i = 0; i < n; i++) {\n	if (!isspace(static_cast<unsigned char>(str[i]))) return false;\n    }"],["    for (string::const_iterator i = str.begin(); i != str.end(); ++i) {\n	const int byte = *i & 0xff;\n	if (!isspace(byte)) { return false; }\n    }"],"Q"),
("C17","down-transform-q",SU,["string downcaseString(","    string::size_type len = r.length();\n    \n    for (string::size_type i = 0; i < len; i++) {\n	r[i] = tolower(static_cast<unsigned char>(r[i]));\n    }"],["static char lowerByte(unsigned char c) { return static_cast<char>(tolower(c)); }\nstring downcaseString(","    std::transform(r.begin(), r.end(), r.begin(), lowerByte);"],"Q"),
("C17","b64-int-index-q","include/Lintel/Base64.hpp","trans_buf += ((uint32_t)table[static_cast<uint8_t>(data[in_off])]) << (32-6-bits);","const uint8_t digit = data[in_off];\n		trans_buf += static_cast<uint32_t>(table[digit]) << (26-bits);","Q"),
("C17","lower-by-hand-q",SU,["string downcaseString(","r[i] = tolower(static_cast<unsigned char>(r[i]));"],["static char lowerAscii(char c) { return c >= 'A' && c <= 'Z' ? c + ('a' - 'A') : c; }\nstring downcaseString(","r[i] = lowerAscii(r[i]);"],"Q"),
("C17","space-range-q",SU,"if (!isspace(static_cast<unsigned char>(str[i]))) return false;","const char c = str[i]; if (c != ' ' && (c < 9 || c > 13)) return false;","Q"),
("C17","space-range",SU,"if (!isspace(static_cast<unsigned char>(str[i]))) return false;","const char c = str[i]; if (c != ' ' && c > 13) return false;","V"),
]
