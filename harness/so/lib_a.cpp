extern "C" {
int which() { return 1; }
int only_in_a() { return 11; }
int counter() { static int n = 0; return ++n; }
}
