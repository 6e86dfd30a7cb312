/* Executes a list of calls of the C interface, given in a file, and reports
 * what happens.
 *
 * calls in the file, each on its own line:
 *   run DIST PTWEIGHT ALGORITHM RADIUS MINPT SEARCH MAXCELL NFILES
 *     followed by lines with the output directory and the input files
 *     (DIST 0: built-in distance function, otherwise custom)
 *   get N: get the last error in a buffer of size N
 *   print: print it
 *   log NAME: initialise the logger
 */
#include "cres.h"

#include <inttypes.h>
#include <pthread.h>
#include <stdio.h>
#include <string.h>

struct seen {
  uint64_t id;
  char *kin;
};

struct data {
  double par[3];
  pthread_mutex_t lock;
  struct seen *seen;
  size_t n, max;
  uint64_t calls;
  int changed;
};

static void put(char **s, size_t *len, size_t *max, const char *t) {
  size_t n = strlen(t);
  if (*len + n + 1 > *max) {
    *max = 2 * (*len + n + 1);
    *s = realloc(*s, *max);
    if (!*s) abort();
  }
  memcpy(*s + *len, t, n + 1);
  *len += n;
}

static char *kinematics(const EventView *ev) {
  char *s = NULL, buf[200];
  size_t len = 0, max = 0;
  snprintf(buf, sizeof buf, "%zu", (size_t)ev->n_type_sets);
  put(&s, &len, &max, buf);
  for (size_t t = 0; t < ev->n_type_sets; ++t) {
    const TypeSetView *set = &ev->type_sets[t];
    snprintf(buf, sizeof buf, " %" PRId32 " %zu", set->pid, (size_t)set->n_momenta);
    put(&s, &len, &max, buf);
    for (size_t i = 0; i < set->n_momenta; ++i) {
      const double *p = set->momenta[i];
      snprintf(buf, sizeof buf, " %.17g %.17g %.17g %.17g", p[0], p[1], p[2], p[3]);
      put(&s, &len, &max, buf);
    }
  }
  return s;
}

static void note(struct data *d, const EventView *ev) {
  char *kin = kinematics(ev);
  pthread_mutex_lock(&d->lock);
  size_t i = 0;
  while (i < d->n && d->seen[i].id != ev->id) ++i;
  if (i < d->n) {
    if (strcmp(d->seen[i].kin, kin)) d->changed = 1;
    free(kin);
  } else {
    if (d->n == d->max) {
      d->max = 2 * d->max + 16;
      d->seen = realloc(d->seen, d->max * sizeof *d->seen);
      if (!d->seen) abort();
    }
    d->seen[d->n].id = ev->id;
    d->seen[d->n++].kin = kin;
    printf("view %" PRIu64 " %zu", (uint64_t)ev->id, (size_t)ev->n_weights);
    for (size_t k = 0; k < ev->n_weights; ++k) printf(" %.17g", ev->weights[k]);
    printf(" | %s\n", kin);
  }
  ++d->calls;
  pthread_mutex_unlock(&d->lock);
}

/* position of an event on a line */
static double position(const struct data *d, const EventView *ev) {
  double x = 0.;
  for (size_t t = 0; t < ev->n_type_sets; ++t) {
    const TypeSetView *set = &ev->type_sets[t];
    double f = 1. + d->par[2] * (double)set->pid;
    for (size_t i = 0; i < set->n_momenta; ++i) {
      const double *p = set->momenta[i];
      x = x + f * (p[0] + d->par[0] * p[1] + d->par[1] * p[2] + p[3]);
    }
  }
  return x;
}

static double distance(void *data, const EventView *a, const EventView *b) {
  struct data *d = data;
  note(d, a);
  note(d, b);
  double x = position(d, a) - position(d, b);
  return x < 0. ? -x : x;
}

static char *line(FILE *f) {
  char *s = NULL;
  size_t n = 0;
  ssize_t len = getline(&s, &n, f);
  if (len < 0) {
    fprintf(stderr, "driver: unexpected end\n");
    exit(99);
  }
  if (len > 0 && s[len - 1] == '\n') s[len - 1] = 0;
  return s;
}

static void run(FILE *f, const char *args) {
  double ptweight, radius, minpt, max;
  int dist, algorithm, search;
  unsigned n;
  if (sscanf(args, "%d %lf %d %lf %lf %d %lf %u", &dist, &ptweight, &algorithm, &radius, &minpt, &search, &max, &n) != 8) {
    fprintf(stderr, "driver: bad arguments %s\n", args);
    exit(99);
  }
  char *outdir = line(f);
  char **infiles = malloc((n + 1) * sizeof *infiles);
  for (unsigned i = 0; i < n; ++i) infiles[i] = line(f);

  struct data d = {.par = {0.25, -0.5, 0.001}, .lock = PTHREAD_MUTEX_INITIALIZER};
  DistanceFn fn = {.fun = distance, .data = &d};
  const JetAlgorithm algorithms[3] = {AntiKt, CambridgeAachen, Kt};
  Opt opt;
  memset(&opt, 0x5a, sizeof opt);
  opt.infiles = infiles;
  opt.n_infiles = n;
  opt.outdir = outdir;
  opt.distance = dist ? &fn : NULL;
  opt.ptweight = ptweight;
  opt.jet_def.algorithm = algorithms[algorithm];
  opt.jet_def.radius = radius;
  opt.jet_def.min_pt = minpt;
  opt.neighbour_search = search ? Naive : Tree;
  opt.max_cell_size = max;
  int32_t res = cres_run(&opt);
  printf("run %" PRId32 " %" PRIu64 " %d\n", res, d.calls, d.changed);
  for (size_t i = 0; i < d.n; ++i) free(d.seen[i].kin);
  free(d.seen);
  for (unsigned i = 0; i < n; ++i) free(infiles[i]);
  free(infiles);
  free(outdir);
}

static void get(size_t n) {
  enum { MARGIN = 64 };
  unsigned char *b = malloc(n + 2 * MARGIN);
  memset(b, 0xa5, n + 2 * MARGIN);
  int32_t res = cres_get_last_err((char *)b + MARGIN, n);
  int bad = 0;
  for (size_t i = 0; i < MARGIN; ++i)
    if (b[i] != 0xa5 || b[MARGIN + n + i] != 0xa5) bad = 1;
  printf("get %" PRId32 " %d ", res, bad);
  for (size_t i = 0; i < n; ++i) printf("%02x", b[MARGIN + i]);
  printf("\n");
  free(b);
}

int main(int argc, char **argv) {
  if (argc != 2) return 99;
  FILE *f = fopen(argv[1], "r");
  if (!f) return 99;
  unsigned n = (unsigned)atoi(line(f));
  for (unsigned i = 0; i < n; ++i) {
    char *s = line(f);
    if (!strncmp(s, "run ", 4)) run(f, s + 4);
    else if (!strncmp(s, "get ", 4)) get((size_t)strtoull(s + 4, NULL, 10));
    else if (!strncmp(s, "log ", 4)) printf("log %" PRId32 "\n", cres_logger_from_env(s + 4));
    else if (!strcmp(s, "print")) {
      fprintf(stderr, "<<<");
      cres_print_last_err();
      fprintf(stderr, ">>>\n");
      printf("print\n");
    } else {
      fprintf(stderr, "driver: unknown call %s\n", s);
      return 99;
    }
    free(s);
    fflush(stdout);
  }
  fclose(f);
  return 0;
}
