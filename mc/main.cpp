extern "C" int mc_main(int argc, char** argv);
int main(int argc, char** argv) { return mc_main(argc, argv); }
