extern char const *Version;
