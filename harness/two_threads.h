// Runs two functions unsynchronised in two threads of a new process in which no library code has run yet (so that
// first-use effects are seen as well), under ThreadSanitizer.  Returns the exit code of that process: 66 for a race.
#pragma once
#include <atomic>
#include <functional>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>

template<class F, class G, class After>
int in_two_threads(F f, G g, After after)
{
    std::fflush(nullptr);
    const pid_t pid = fork();
    if (pid == 0)
    {
        std::atomic<int> gate{ 0 };
        auto body = [&gate](auto& fn) {
            gate.fetch_add(1, std::memory_order_relaxed);
            while (gate.load(std::memory_order_relaxed) < 2) std::this_thread::yield();
            fn();
        };
        {
            std::thread x([&] { body(f); }), y([&] { body(g); });
            x.join(); y.join();
        }
        _exit(after());
    }
    int st = -1;
    if (pid < 0 || waitpid(pid, &st, 0) != pid) { std::fprintf(stderr, "cannot fork\n"); _exit(2); }
    return WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
}
