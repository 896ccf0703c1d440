extern "C" {
int which() { return 5; }
int only_in_d() { return 44; }
int counter() { static int n = 0; return ++n; }
}
