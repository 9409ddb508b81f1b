// Plays scenarios from stdin, each in its own child process: a crash or a hang
// of the code becomes a "crash" line of the recorded trace.
//   BEGIN name nlines / the commands, one per line
// run() reads commands from the stream it is given and prints one JSON line for
// every command.
#include <signal.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <iostream>
#include <sstream>
#include <string>

static FILE* out;                     // the trace; stdout itself belongs to the code
static std::string num(double v) { char b[64]; snprintf(b, sizeof b, "\"%.17g\"", v); return b; }
static double real(std::istream& is) { std::string s; is >> s; return strtod(s.c_str(), nullptr); }

template <class Run> int play(Run run) {
  out = fdopen(dup(1), "w");
  int null = open("/dev/null", O_WRONLY);
  dup2(null, 1);
  setvbuf(out, nullptr, _IOFBF, 1 << 20);
  std::ios::sync_with_stdio(false);
  std::string line;
  int hangs = 0;
  while (std::getline(std::cin, line)) {
    std::istringstream is(line);
    std::string b, name; size_t n; is >> b >> name >> n;
    std::string text;
    for (size_t i = 0; i < n; i++) { std::getline(std::cin, line); text += line + "\n"; }
    fflush(out);
    pid_t pid = fork();
    if (pid == 0) {
      rlimit lim = {40, 40};
      setrlimit(RLIMIT_CPU, &lim);
      alarm(300);
      std::istringstream in(text);
      try {
        std::string cmd;
        while (std::getline(in, cmd)) { std::istringstream c(cmd); std::string op; c >> op; run(op, c); }
      } catch (const std::exception& e) { fprintf(out, "{\"crash\":\"exception\"}\n"); }
      fflush(out);
      _exit(0);
    }
    int stt; waitpid(pid, &stt, 0);
    if (!WIFEXITED(stt)) fprintf(out, "{\"crash\":\"signal %d\"}\n", WTERMSIG(stt));
    else if (WEXITSTATUS(stt)) { fprintf(stderr, "driver: harness error\n"); return 3; }
    fprintf(out, "{\"done\":\"%s\"}\n", name.c_str());
    fflush(out);
    if (!WIFEXITED(stt) && (WTERMSIG(stt) == SIGXCPU || WTERMSIG(stt) == SIGKILL || WTERMSIG(stt) == SIGALRM) && ++hangs >= 2) {
      fputs("{\"stop\":1}\n", out); fflush(out);
      return 0;
    }
  }
  return 0;
}
[[noreturn]] static void bad(const std::string& op) { fprintf(stderr, "driver: bad command %s\n", op.c_str()); _exit(3); }
