#include "common.hpp"
FILE *g_out;
sigjmp_buf g_jmp;
volatile int g_armed = 0;
std::vector<Entry> &entries() { static std::vector<Entry> e; return e; }
static void on_sig(int s)
{
	if (s == SIGALRM) { const char m[] = "\nTIMEOUT\n"; (void)!write(1, m, sizeof(m) - 1); _exit(4); }
	if (g_armed) { g_armed = 0; siglongjmp(g_jmp, s); }
	_exit(3);
}
static std::vector<u8> unhex(const std::string &s)
{
	std::vector<u8> r;
	if (s == "-") return r;
	auto n = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
	for (std::size_t i = 0; i + 1 < s.size(); i += 2) r.push_back(static_cast<u8>(n(s[i]) * 16 + n(s[i + 1])));
	// slack so that code under test that reads a little too far is caught by the checks made for that, not here
	r.reserve(r.size() + 256);
	return r;
}
int main(int argc, char **argv)
{
	if (argc < 3) return 2;
	FILE *in = fopen(argv[1], "r");
	g_out = fopen(argv[2], "w");
	if (!in || !g_out) return 2;
	std::vector<Prog> progs;
	char *line = nullptr; size_t cap = 0;
	while (getline(&line, &cap, in) > 0)
	{
		std::vector<std::string> t;
		for (char *s = strtok(line, " \n"); s; s = strtok(nullptr, " \n")) t.push_back(s);
		if (t.empty()) continue;
		if (t[0] == "prog") { progs.push_back({t[1], t[2], {}}); continue; }
		Ins I;
		I.name = t[0]; I.op = H(t[0].c_str());
		I.d = atoi(t[1].c_str()); I.a = atoi(t[2].c_str()); I.b = atoi(t[3].c_str()); I.c = atoi(t[4].c_str());
		I.k = atol(t[5].c_str());
		I.x = unhex(t.size() > 6 ? t[6] : "-"); I.y = unhex(t.size() > 7 ? t[7] : "-");
		progs.back().ins.push_back(std::move(I));
	}
	struct sigaction sa = {};
	sa.sa_handler = on_sig;
	sa.sa_flags = SA_NODEFER | SA_ONSTACK;
	stack_t ss = {};
	static char alt[1 << 16];
	ss.ss_sp = alt; ss.ss_size = sizeof(alt);
	sigaltstack(&ss, nullptr);
	for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGALRM, SIGABRT}) sigaction(s, &sa, nullptr);
	alarm(argc > 3 ? static_cast<unsigned>(atoi(argv[3])) : 120);
	for (auto &p : progs)
		for (auto &e : entries())
			if (p.type == e.type || p.type == "*")
			{
				// one trace per (program, instantiation)
				fprintf(g_out, "T %s %s %s %zu\n", p.id.c_str(), e.type, e.abi, e.n);
				e.run(p);
				fprintf(g_out, "E\n");
			}
	fclose(g_out);
	return 0;
}
