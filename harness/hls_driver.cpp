// The tokenizer of the high-level-synthesis design, on stand-ins for the vendor's headers.
//   H <id> <hex>    the bytes of a compressed stream, handed over in 16-byte words
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <signal.h>
#include <unistd.h>
#define main hls_main
#include VP_HLS_SOURCE
#undef main

static int badRanges;
void vp_bad_range() { badRanges++; }

static FILE *out;
static std::string head;
static void hung(int)
{
	fprintf(out, "%s,\"toks\":[],\"lasts\":[],\"left\":0,\"fault\":3}\n", head.c_str());
	fflush(out);
	_exit(3);
}

int main(int argc, char **argv)
{
	out = fopen(argv[1], "w");
	int limit = argc > 2 ? atoi(argv[2]) : 20;
	signal(SIGALRM, hung);
	std::string line;
	for (int c; (c = getchar()) != EOF;) {
		if (c != '\n') {
			line += (char)c;
			continue;
		}
		char id[64];
		int at = 0;
		if (sscanf(line.c_str(), "H %63s %n", id, &at) < 1) {
			line.clear();
			continue;
		}
		std::vector<unsigned char> in;
		for (size_t k = at; k + 1 < line.size(); k += 2)
			in.push_back((unsigned char)strtol(line.substr(k, 2).c_str(), nullptr, 16));
		while (in.empty() || in.size() % 16)
			in.push_back(0);
		head = std::string("{\"t\":\"H\",\"id\":\"") + id + "\",\"in\":[";
		for (size_t k = 0; k < in.size(); k++)
			head += (k ? "," : "") + std::to_string(in[k]);
		head += "]";
		line.clear();

		input_stream words;
		tokenized_stream tokens;
		for (size_t k = 0; k < in.size(); k += 16) {
			input_stream_element e;
			e.data = 0;
			for (int b = 0; b < 16; b++)
				e.data(8 * b + 7, 8 * b) = in[k + b];
			e.keep = 0xFFFF;
			e.strb = 0xFFFF;
			e.last = k + 16 >= in.size();
			words.write(e);
		}
		int fault = 0;
		badRanges = 0;
		alarm(limit);
		try {
			opcode_tokenizer(words, tokens);
		} catch (vp_hls_fault &f) {
			fault = f.what;
		}
		alarm(0);
		if (!fault && badRanges)
			fault = 4;
		std::string toks, lasts;
		int n = 0;
		while (!tokens.empty() && n++ < 20000) {
			tokenized_stream_element t = tokens.read();
			ap_uint<72> d = t.data;
			d <<= 3;
			toks += toks.empty() ? "[" : ",[";
			for (int k = 0; k < 9; k++) {
				ap_uint<8> b = d(71 - 8 * k, 64 - 8 * k);
				toks += (k ? "," : "") + std::to_string((int)b.to_uint());
			}
			toks += "]";
			lasts += (lasts.empty() ? "" : ",") + std::to_string((int)t.last.to_uint());
		}
		fprintf(out, "%s,\"toks\":[%s],\"lasts\":[%s],\"left\":%u,\"fault\":%d}\n", head.c_str(), toks.c_str(), lasts.c_str(), words.size(), fault);
		fflush(out);
	}
	return 0;
}
