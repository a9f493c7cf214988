// A view statement in another file than the harness.
template <typename T>
void elsewhere(const T &x, const std::string &name, int &line, const char *&file) {
  file = __FILE__;
  line = __LINE__; VIEW(x, name);
}
template <typename T>
void elsewhere_streamed(const T &x, const std::string &name, int &line, const char *&file) {
  file = __FILE__;
  line = __LINE__; VIEW(x) << name;
}
// Statements on lines of all magnitudes, in files of all kinds of names.
template <typename T>
void far_away(int where, const T &x, const std::string &name, int &line, const char *&file) {
  switch (where) {
    case 0: {
#line 32767 "short.cc"
      file = __FILE__; line = __LINE__; VIEW(x) << name;
      break;
    }
    case 1: {
#line 32768 "a/b/../c d.cc"
      file = __FILE__; line = __LINE__; VIEW(x, name);
      break;
    }
    case 2: {
#line 65535 "n\303\244me.cc"
      file = __FILE__; line = __LINE__; VIEW(x) << name;
      break;
    }
    case 3: {
#line 65536 "%s{}.cc"
      file = __FILE__; line = __LINE__; VIEW(x, name);
      break;
    }
    case 4: {
#line 999999 ""
      file = __FILE__; line = __LINE__; VIEW(x) << name;
      break;
    }
    case 5: {
#line 1000000 "C:\\dir\\x.cc"
      file = __FILE__; line = __LINE__; VIEW(x, name);
      break;
    }
    case 6: {
#line 16777217 "ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff.cc"
      file = __FILE__; line = __LINE__; VIEW(x) << name;
      break;
    }
    case 7: {
#line 2147483640 "/dir/dir/dir/dir/dir/dir/dir/dir/dir/dir/dir/dir/dir/dir/dir/dir/dir/dir/dir/dir/dir/dir/dir/dir/dir/dir/dir/dir/dir/dir/dir/dir/dir/dir/dir/dir/dir/dir/dir/dir/dir/dir/dir/dir/dir/dir/dir/dir/dir/dir/dir/dir/dir/dir/dir/dir/dir/dir/dir/dir/x.cc"
      file = __FILE__; line = __LINE__; VIEW(x, name);
      break;
    }
    default: break;
  }
}
constexpr int FAR_SITES = 8;
