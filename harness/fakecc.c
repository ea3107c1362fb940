// Stand-in for the programs the compiler driver runs: an onnx-mlir compiler
// (reports its argument vector and directory, produces the files the real one
// would, fails on request) and, when called docker / podman, a container
// engine that runs the compiler on the same files.
#include <errno.h>
#include <fcntl.h>
#include <libgen.h>
#include <limits.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

static void report(const char *file, int argc, char **argv) {
  char tmp[PATH_MAX], cwd[PATH_MAX];
  snprintf(tmp, sizeof tmp, "%s.tmp%d", file, (int)getpid());
  FILE *f = fopen(tmp, "w");
  if (!f)
    _exit(99);
  if (!getcwd(cwd, sizeof cwd))
    _exit(98);
  fwrite(cwd, 1, strlen(cwd) + 1, f);
  for (int i = 0; i < argc; i++)
    fwrite(argv[i], 1, strlen(argv[i]) + 1, f);
  fclose(f);
  rename(tmp, file);
}

static int starts(const char *a, const char *p, const char **v) {
  size_t n = strlen(p);
  if (strncmp(a, p, n))
    return 0;
  *v = a + n;
  return 1;
}

static int touch(const char *name) {
  int fd = open(name, O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd < 0)
    return -1;
  if (write(fd, "x", 1) != 1)
    return -1;
  close(fd);
  return 0;
}

static int compiler(int argc, char **argv) {
  const char *v, *out = NULL, *in = NULL, *suffix = ".so", *msg = NULL;
  int code = 0, sig = 0, noout = 0, constants = 0, ms = 0;
  for (int i = 1; i < argc; i++) {
    const char *a = argv[i];
    if (!strcmp(a, "--version"))
      return 0;
    if (starts(a, "--fake-report=", &v))
      report(v, argc, argv);
    else if (starts(a, "--fake-exit=", &v))
      code = atoi(v);
    else if (starts(a, "--fake-signal=", &v))
      sig = atoi(v);
    else if (starts(a, "--fake-sleep=", &v))
      ms = atoi(v);
    else if (starts(a, "--fake-msg=", &v))
      msg = *v ? v : NULL;
    else if (!strcmp(a, "--fake-noout"))
      noout = 1;
    else if (!strcmp(a, "--fake-const"))
      constants = 1;
    else if (!strcmp(a, "-o") && i + 1 < argc)
      out = argv[++i];
    else if (starts(a, "-o=", &v))
      out = v;
    else if ((!strcmp(a, "-tag") || !strcmp(a, "--tag")) && i + 1 < argc)
      i++;
    else if (!strcmp(a, "-EmitJNI") || !strcmp(a, "--EmitJNI"))
      suffix = ".jar";
    else if (!strcmp(a, "-EmitObj") || !strcmp(a, "--EmitObj"))
      suffix = ".o";
    else if (!strcmp(a, "-EmitLib") || !strcmp(a, "--EmitLib"))
      suffix = ".so";
    else if (starts(a, "-Emit", &v) || starts(a, "--Emit", &v))
      suffix = ".onnx.mlir";
    else if (a[0] != '-')
      in = a;
  }
  if (msg) {
    if (write(1, "out:", 4) != 4 || write(1, msg, strlen(msg)) < 0 ||
        write(2, "err:", 4) != 4 || write(2, msg, strlen(msg)) < 0 ||
        write(1, "\n", 1) != 1)
      return 97;
  }
  if (ms)
    usleep(ms * 1000);
  if (sig) {
    signal(sig, SIG_DFL);
    raise(sig);
  }
  if (code)
    return code;
  if (in && !noout) {
    if (access(in, R_OK))
      return 3; // InvalidInputFileAccess
    char base[PATH_MAX], name[PATH_MAX + 32];
    snprintf(base, sizeof base, "%s", out ? out : in);
    if (!out) {
      char *dot = strrchr(base, '.');
      if (dot)
        *dot = 0;
    }
    snprintf(name, sizeof name, "%s%s", base, suffix);
    if (touch(name))
      return 4; // InvalidOutputFileAccess
    if (constants) {
      snprintf(name, sizeof name, "%s.constants.bin", base);
      if (touch(name))
        return 4;
    }
  }
  return 0;
}

static int readInt(const char *dir, const char *name, int dflt) {
  char p[PATH_MAX];
  snprintf(p, sizeof p, "%s/%s", dir, name);
  FILE *f = fopen(p, "r");
  if (!f)
    return dflt;
  if (fscanf(f, "%d", &dflt) != 1)
    dflt = 0;
  fclose(f);
  return dflt;
}

// The images that are present, one per line.
static int hasImage(const char *dir, const char *eng, const char *img) {
  char p[PATH_MAX], line[PATH_MAX];
  snprintf(p, sizeof p, "%s/%s.images", dir, eng);
  FILE *f = fopen(p, "r");
  int r = 0;
  while (f && fgets(line, sizeof line, f)) {
    line[strcspn(line, "\n")] = 0;
    r |= !strcmp(line, img);
  }
  if (f)
    fclose(f);
  return r;
}

static int engine(const char *eng, int argc, char **argv) {
  const char *dir = getenv("FAKE_STATE");
  if (!dir)
    return 96;
  char p[PATH_MAX];
  snprintf(p, sizeof p, "%s/%s.log", dir, eng);
  FILE *f = fopen(p, "a");
  if (!f)
    return 95;
  for (int i = 1; i < argc; i++)
    fprintf(f, "%s%c", argv[i], i + 1 < argc ? ' ' : '\n');
  fclose(f);
  if (argc < 2)
    return 125;
  if (!strcmp(argv[1], "--version")) {
    snprintf(p, sizeof p, "%s.version", eng);
    return readInt(dir, p, 0);
  }
  if (!strcmp(argv[1], "images")) { // succeeds whether or not there are any
    if (argc > 3 && hasImage(dir, eng, argv[argc - 1]))
      printf("0123456789ab\n");
    return 0;
  }
  if (argc > 3 && !strcmp(argv[1], "image") &&
      (!strcmp(argv[2], "inspect") || !strcmp(argv[2], "exists")))
    return hasImage(dir, eng, argv[argc - 1]) ? 0 : 1;
  if (!strcmp(argv[1], "inspect"))
    return hasImage(dir, eng, argv[argc - 1]) ? 0 : 1;
  if (!strcmp(argv[1], "pull")) {
    snprintf(p, sizeof p, "%s.pull", eng);
    int rc = readInt(dir, p, 0);
    if (!rc) {
      snprintf(p, sizeof p, "%s/%s.images", dir, eng);
      f = fopen(p, "a");
      fprintf(f, "%s\n", argv[2]);
      fclose(f);
    }
    return rc;
  }
  if (strcmp(argv[1], "run"))
    return 125;
  const char *wd = NULL, *entry = NULL, *img = NULL;
  snprintf(p, sizeof p, "%s/mounts", dir);
  f = fopen(p, "w");
  int i = 2;
  for (; i < argc; i++) {
    if (!strcmp(argv[i], "--rm"))
      continue;
    if (!strcmp(argv[i], "--entrypoint") && i + 1 < argc)
      entry = argv[++i];
    else if ((!strcmp(argv[i], "-w") || !strcmp(argv[i], "--workdir")) &&
             i + 1 < argc)
      wd = argv[++i];
    else if ((!strcmp(argv[i], "-v") || !strcmp(argv[i], "--volume")) &&
             i + 1 < argc)
      fprintf(f, "%s\n", argv[++i]);
    else if (argv[i][0] == '-')
      return 125;
    else {
      img = argv[i++];
      break;
    }
  }
  fclose(f);
  if (!img || !hasImage(dir, eng, img))
    return 125;
  if (!entry) { // entry point of the image: the compiler
    if (argc > i && strcmp(argv[argc - 1], "--version") == 0)
      return 0;
    return compiler(argc - i + 1, argv + i - 1);
  }
  if (strcmp(entry, "sh") && strcmp(entry, "/bin/sh"))
    return 127;
  // Where the container has its own working directory the relative names of
  // the host mean nothing.
  if (chdir(wd ? wd : "/"))
    return 126;
  char *sub[64] = {"sh"};
  int n = 1;
  const char *dev = "/workdir/onnx-mlir/build/Debug/bin/onnx-mlir ";
  for (; i < argc && n < 63; i++) // The development image: skip its path.
    sub[n++] = argv[i] + (strncmp(argv[i], dev, strlen(dev))
                              ? 0
                              : strlen(dev) - strlen("onnx-mlir "));
  sub[n] = NULL;
  execv("/bin/sh", sub);
  return 127;
}

int main(int argc, char **argv) {
  char *b = strrchr(argv[0], '/');
  b = b ? b + 1 : argv[0];
  if (!strcmp(b, "docker") || !strcmp(b, "podman"))
    return engine(b, argc, argv);
  return compiler(argc, argv);
}
