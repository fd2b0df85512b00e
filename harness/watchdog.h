// Ends what hangs long before its time limit: if for half a minute no thread but the watchdog has run at all,
// none ever will.
#pragma once
#include <ctime>
#include <csignal>
#include <thread>
#include <unistd.h>
static void watchdog(void (*hangs)(int))
{
	std::thread([hangs] {
		auto spent = [](clockid_t c) { timespec t; clock_gettime(c, &t); return t.tv_sec * 1000000000LL + t.tv_nsec; };
		long long last = -1;
		for (int idle = 0;; ) {
			usleep(500000);
			// (reading one clock after the other takes a moment itself)
			long long now = (spent(CLOCK_PROCESS_CPUTIME_ID) - spent(CLOCK_THREAD_CPUTIME_ID)) / 1000000;
			idle = now - last <= 1 ? idle + 1 : 0;
			last = now;
			if (idle >= 60) hangs(SIGALRM);
		}
	}).detach();
}
