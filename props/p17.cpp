// P17: the uri-split tool.
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <csignal>
#include <cstdlib>
#include <cstring>
#include <fstream>

#include "../gen/uri_gen.hpp"
#include "../ref/abnf.hpp"

namespace {

#if defined(__SANITIZE_ADDRESS__)
constexpr char const* build = "san";
#else
constexpr char const* build = "fast";
#endif

std::string tool () {
  char const* const dir = std::getenv ("URI_SPLIT_DIR");
  return std::string{dir != nullptr ? dir : "."} + "/uri-split-" + build;
}

// A directory of this process's own, in the check's scratch directory.
std::string const& scratch () {
  static std::string const dir = [] {
    char const* const root = std::getenv ("VERIF_SCRATCH");
    std::string d = std::string{root != nullptr ? root : "/tmp"} + "/" + std::to_string (getpid ());
    (void)mkdir (d.c_str (), 0700);
    return d;
  }();
  return dir;
}

void write_file (std::string const& path, std::string const& text) {
  std::ofstream f{path, std::ios::binary | std::ios::trunc};
  f.write (text.data (), static_cast<std::streamsize> (text.size ()));
  if (!f.flush ()) {
    std::perror (path.c_str ());
    std::_Exit (2);
  }
}
std::string read_file (std::string const& path) {
  std::ifstream f{path, std::ios::binary};
  return {std::istreambuf_iterator<char>{f}, {}};
}

struct Outcome {
  bool exited = false;
  int status = 0;
  std::string out;
  std::string err;
};

// Where the output of the tool goes.
struct Sink {
  enum Kind { file, limited, full, closed } kind = file;
  std::size_t limit = 64U << 20U;  // of the size of the file
};

Outcome spawn (std::vector<std::string> const& args, std::string const& in, Sink const& sink) {
  std::string const program = tool ();
  std::string const dir = scratch ();
  std::string const stdout_file = dir + "/stdout";
  std::string const stderr_file = dir + "/stderr";
  std::vector<char*> argv{const_cast<char*> (program.c_str ())};
  for (auto const& a : args) {
    argv.push_back (const_cast<char*> (a.c_str ()));
  }
  argv.push_back (nullptr);
  pid_t const pid = vfork ();
  if (pid == 0) {
    int const i = open (in.c_str (), O_RDONLY);
    int const o = open (sink.kind == Sink::full ? "/dev/full" : stdout_file.c_str (), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    int const e = open (stderr_file.c_str (), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (i < 0 || o < 0 || e < 0 || dup2 (i, 0) < 0 || dup2 (o, 1) < 0 || dup2 (e, 2) < 0 || chdir (dir.c_str ()) < 0) {
      _exit (126);
    }
    for (int const fd : {i, o, e}) {
      if (fd > 2) {
        close (fd);
      }
    }
    if (sink.kind == Sink::closed) {
      close (1);
    }
    if (sink.kind == Sink::limited) {
      (void)signal (SIGXFSZ, SIG_IGN);  // so that the write fails
    }
    rlimit const cpu{10, 10};
    (void)setrlimit (RLIMIT_CPU, &cpu);
    rlimit const size{sink.limit, sink.limit};
    (void)setrlimit (RLIMIT_FSIZE, &size);
    execv (program.c_str (), argv.data ());
    _exit (127);
  }
  if (pid < 0) {
    std::perror ("vfork");
    std::_Exit (2);
  }
  int status = 0;
  while (waitpid (pid, &status, 0) < 0) {
  }
  Outcome r;
  r.exited = WIFEXITED (status);
  r.status = r.exited ? WEXITSTATUS (status) : WTERMSIG (status);
  if (r.exited && (r.status == 126 || r.status == 127)) {
    std::fprintf (stderr, "could not run %s\n", program.c_str ());
    std::_Exit (2);
  }
  if (sink.kind != Sink::full) {
    r.out = read_file (stdout_file);
  }
  r.err = read_file (stderr_file);
  return r;
}

std::string quoted (ref::ostring const& s) {
  return s ? "\"" + *s + "\"" : std::string{"None"};
}

// Appends the expected output for the text of one stream. Returns false if the tool has to stop.
bool expect (std::string_view text, std::string& out, std::size_t& good) {
  while (!text.empty ()) {
    auto const nl = text.find ('\n');
    auto const line = text.substr (0, nl);
    text.remove_prefix (nl == std::string_view::npos ? text.size () : nl + 1);
    out += "URI: " + std::string{line} + "\n";
    if (!ref::rfc3986 ().matches ("URI", line)) {
      return false;
    }
    auto const p = ref::decompose (line);
    out += " scheme: " + quoted (p.scheme);
    out += "\n userinfo: " + (p.authority ? quoted (p.authority->userinfo) : "None");
    out += "\n host: " + (p.authority ? quoted (p.authority->host) : "None");
    out += "\n port: " + (p.authority ? quoted (p.authority->port) : "None");
    out += "\n path: \"" + ref::path_string (p.path) + "\"";
    out += "\n query: " + quoted (p.query);
    out += "\n fragment: " + quoted (p.fragment) + "\n";
    ++good;
  }
  return true;
}

std::string line (pbt::Source& s, pbt::Case& c, bool careful) {
  switch (careful ? s.weighted ({60, 1}) : s.weighted ({6, 2, 1, 1, 1, 1})) {
  case 0: return gen::uri (s, false);
  case 1: return gen::mutate (s, gen::uri (s, false));
  case 2: return {};
  case 3: return gen::uri (s, true);
  case 4: return gen::uri (s, false) + std::string{s.pick ({"\r", " ", "\t", std::string_view{"\0", 1}, "\xC3\xA9", "\"", "\\"})};
  default: {
    bool near = false;
    return gen::uri_like (s, c, &near);
  }
  }
}

std::string content (pbt::Source& s, pbt::Case& c) {
  std::string r;
  bool const careful = s.chance (4, 5);
  auto n = s.length (9);
  if (s.chance (1, 60)) {
    // Beyond any buffer.
    auto const l = gen::uri (s, false) + "\n";
    for (auto k = std::min (s.below (1500), std::size_t{500'000} / l.size ()); k > 0; --k) {
      r += l;
    }
    if (s.flip ()) {
      r += "a:" + std::string (s.below (20000), 'x') + "\n";
    }
  }
  for (; n > 0; --n) {
    r += line (s, c, careful) + "\n";
  }
  if (!r.empty () && s.chance (1, 4)) {
    r.pop_back ();
  }
  if (s.chance (1, 30)) {
    r += "\n";
  }
  return r;
}

void run (pbt::Case& c) {
  auto& s = c.src;
  std::string const dir = scratch ();
  // Some look like options or like something else.
  static constexpr std::string_view all_names[] = {"one", "two words", "three.txt", "sub/four", "-", "--help", "-v", "--", "a:b", "%41*", "@one"};
  auto const shift = s.chance (1, 4) ? s.below (std::size (all_names)) : 0;
  auto const name = [&] (std::size_t i) { return std::string{all_names[(i + shift) % std::size (all_names)]}; };
  std::vector<std::string> args;
  std::string in;
  std::string expected;
  bool ok = true;
  std::size_t good = 0;
  bool const from_stdin = s.chance (2, 5);
  std::string in_file = dir + "/stdin";
  (void)mkdir ((dir + "/sub").c_str (), 0700);
  if (from_stdin && s.chance (1, 200)) {
    in_file = dir + "/sub";
    ok = false;
    c.label ("standard input that cannot be read");
  } else if (from_stdin) {
    in = content (s, c);
    c.note ("stdin", in);
    ok = expect (in, expected, good);
    c.label ("standard input");
  } else {
    if (s.chance (1, 4)) {
      in = content (s, c);  // which must not be read
    }
    std::vector<std::string> texts;
    auto const files = 1 + s.length (3);
    for (std::size_t i = 0; i < files; ++i) {
      texts.push_back (content (s, c));
      write_file (dir + "/" + name (i), texts.back ());
    }
    bool open = true;
    auto const n = 1 + s.length (5);
    for (std::size_t i = 0; i < n; ++i) {
      std::string arg;
      std::string_view text;
      if (s.chance (1, 12)) {
        arg = s.pick ({"absent", "sub/absent", "one/absent", ""});
        ok = false;
        open = false;
        c.note ("file that cannot be opened", arg);
      } else if (s.chance (1, 20)) {
        arg = s.pick ({"sub", ".", "sub/.."});
        ok = false;
        c.note ("file that cannot be read", arg);
        c.label ("a file that cannot be read");
      } else {
        auto const f = s.chance (3, 4) && i < files ? i : s.below (files);
        arg = s.chance (1, 3) ? dir + "/" + name (f) : name (f);
        c.label_if (arg.starts_with ('-'), "a file whose name looks like an option");
        text = texts[f];
        c.note ("file", texts[f]);
        if (ok) {
          ok = expect (text, expected, good);
        }
      }
      args.push_back (arg);
    }
    c.label ("files");
    c.label_if (n > 1, "several files");
    c.label_if (!open, "a file that cannot be opened");
  }
  c.label_if (ok, "success expected");
  c.label_if (!ok, "failure expected");
  if (expected.size () > (16U << 20U)) {
    c.discard ();
    return;
  }
  Sink sink;
  bool written = true;
  if (s.chance (1, 6)) {
    switch (s.weighted ({4, 1, 1})) {
    case 0:
      sink.kind = Sink::limited;
      sink.limit = s.flip () ? s.below (expected.size () + 2) : expected.size () - std::min (s.length (600), expected.size ());
      written = expected.size () <= sink.limit;
      break;
    case 1: sink.kind = Sink::full; break;
    default: sink.kind = Sink::closed; break;
    }
    if (sink.kind != Sink::limited) {
      written = expected.empty ();
    }
    c.note ("output that can be written",
            sink.kind == Sink::limited ? std::to_string (sink.limit) + " bytes" : std::string{"none"});
    c.label ("the output may not be written");
    c.label_if (!written, "output that cannot be written");
  }
  if (good > 0) {
    c.nontrivial ();
  }
  c.label_if (good > 0 && !ok, "failure after output");
  write_file (dir + "/stdin", in);
  auto const r = spawn (args, in_file, sink);
  if (!written) {
    expected.resize (sink.kind == Sink::limited ? sink.limit : 0);
    ok = false;
  }
  c.check (r.exited, [&] { return "the tool was ended by signal " + std::to_string (r.status) + "\n" + r.err.substr (0, 1500); });
  if (r.out != expected) {
    auto const at = static_cast<std::size_t> (
      std::mismatch (r.out.begin (), r.out.end (), expected.begin (), expected.end ()).first - r.out.begin ());
    auto const from = at < 60 ? 0 : at - 60;
    c.fail ("the output differs at byte " + std::to_string (at) + ": expected ..." + pbt::show (expected.substr (from, 160)) +
            ", got ..." + pbt::show (std::string_view{r.out}.substr (std::min (from, r.out.size ()), 160)) + " (exit status " +
            std::to_string (r.status) + ") " + pbt::show (r.err.substr (0, 600)));
  }
  c.check ((r.status == 0) == ok, [&] {
    return std::string{ok ? "success" : "failure"} + " was expected, but the exit status is " + std::to_string (r.status) + " " +
           pbt::show (r.err.substr (0, 600));
  });
}

}  // namespace

pbt::Property const pbt::property{
  "P17",
  "A case is a run of the tool on generated lines (URIs, damaged ones, references, empty lines, other bytes; with or without a "
  "final newline), on standard input or in up to six files, some absent, repeated or not readable, with output to a file, one that is full "
  "after some bytes, or none; output and exit status are compared with a "
  "model. Non-trivial: the components of at least one line are expected.",
  run};
