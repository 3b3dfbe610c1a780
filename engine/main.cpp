extern "C" int ns_main(int, char **);
int main(int c, char **v) { return ns_main(c, v); }
