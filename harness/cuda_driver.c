/* Runs the decompressor kernel of the CUDA back end, translated to C by lib/ptx.py, on streams and records what it
 * produced, for CodecTrace.tla.  Jobs: "id chunk len out-slack hex-of-the-stream"; the buffers of the chunk end at
 * inaccessible pages and begin at one. */
#define _GNU_SOURCE
#include <setjmp.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

void vp_kernel(uint64_t in, uint64_t out, uint32_t ctaid, uint32_t ntid, uint32_t tid);

static sigjmp_buf env;
static void on_signal(int s) { siglongjmp(env, s); }

struct area { uint8_t *p; size_t n; };

/* n bytes between inaccessible pages, at the end of what is accessible (or at the beginning) */
static uint8_t *area(struct area *a, size_t n, int front)
{
	size_t ps = 4096, body = (n + ps - 1) / ps * ps;
	a->n = body + 2 * ps;
	a->p = mmap(NULL, a->n, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	if (a->p == MAP_FAILED || (body && mprotect(a->p + ps, body, PROT_READ | PROT_WRITE))) {
		perror("area");
		exit(3);
	}
	return front ? a->p + ps : a->p + ps + body - n;
}

static void bytes(const uint8_t *p, size_t n)
{
	putchar('[');
	for (size_t i = 0; i < n; i++)
		printf(i ? ",%u" : "%u", p[i]);
	putchar(']');
}

int main(int argc, char **argv)
{
	FILE *f = fopen(argv[1], "r");
	char *line = NULL, *hex, *id;
	size_t cap = 0;
	struct sigaction sa = { .sa_handler = on_signal, .sa_flags = SA_NODEFER };
	static uint8_t alt[1 << 16];
	stack_t st = { .ss_sp = alt, .ss_size = sizeof(alt) };
	sigaltstack(&st, NULL);
	sa.sa_flags |= SA_ONSTACK;
	sigaction(SIGSEGV, &sa, NULL);
	sigaction(SIGBUS, &sa, NULL);
	sigaction(SIGALRM, &sa, NULL);
	(void)argc;
	while (f && getline(&line, &cap, f) > 0) {
		id = strtok(line, " \n");
		unsigned chunk = atoi(strtok(NULL, " \n"));
		unsigned ntid = atoi(strtok(NULL, " \n"));
		size_t len = atol(strtok(NULL, " \n"));
		size_t slack = atol(strtok(NULL, " \n"));
		hex = strtok(NULL, " \n");
		size_t n = strlen(hex) / 2;
		struct area ia, oa[2];
		uint8_t *in = area(&ia, n, 0), *out[2];
		for (size_t i = 0; i < n; i++) {
			unsigned v;
			sscanf(hex + 2 * i, "%2x", &v);
			in[i] = v;
		}
		volatile int fault = 0;
		for (int k = 0; k < 2; k++) {
			out[k] = area(&oa[k], len + slack, slack != 0);
			memset(out[k], k ? 0x5a : 0xa5, len + slack);
			int s = sigsetjmp(env, 1);
			if (s == 0) {
				alarm(10);
				vp_kernel((uint64_t)in - (uint64_t)chunk * 2048, (uint64_t)out[k] - (uint64_t)chunk * 1024,
					  chunk / ntid, ntid, chunk % ntid);
			} else {
				fault = s == SIGALRM ? 2 : 4;
			}
			alarm(0);
		}
		size_t olen = len + slack;
		while (olen && out[0][olen - 1] != out[1][olen - 1])
			olen--;
		printf("{\"t\":\"D\",\"id\":\"%s\",\"cost\":0,\"in\":", id);
		bytes(in, n);
		/* bytes that the kernel did not write differ in the two runs: an impossible value for them */
		printf(",\"outs\":[[");
		for (size_t i = 0; i < olen; i++)
			printf(i ? ",%d" : "%d", out[0][i] == out[1][i] ? out[0][i] : -1);
		printf("]],\"calls\":[{\"impl\":4,\"cap\":%zu,\"ret\":0,\"olen\":%zu,\"idx\":1,\"fault\":%d,\"ia\":0,\"oa\":0,\"amp\":1}],"
		       "\"dec\":[],\"decouts\":[]}\n", len + slack, olen, fault);
		munmap(ia.p, ia.n);
		munmap(oa[0].p, oa[0].n);
		munmap(oa[1].p, oa[1].n);
	}
	return 0;
}
