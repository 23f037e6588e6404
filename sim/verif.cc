int verif_main(int argc, char **argv);
int main(int argc, char **argv) { return verif_main(argc, argv); }
