// Driver of the property-based testing engine: see pbt.h.
//
//   PROG run --cases N --seed S --variant V [--workers W] [--max-seconds T] [--dict F] --out STATS --hashes FILE --replay FILE
//   PROG replay FILE
//   PROG bytes FILE ... (as run, for one input found by the coverage-guided build)
//
// Exit status: 0 held, 1 violated (the replay file was written and reproduced), 2 internal error.
#include "pbt.h"

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <ctime>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <memory>
#include <new>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));

namespace
{
    using namespace pbt;

    Dictionary globalDictionary;

    constexpr int kExitOracle = 77;
    constexpr int kExitHang = 78;
    constexpr int kExitDiscard = 79;
    constexpr int kHangTicks = 5;       // of kTickSeconds of processor time in one case
    constexpr int kTickSeconds = 3;
    constexpr double kWallStall = 150;  // seconds without progress (a blocked, not busy, worker)

    struct Shared
    {
        std::atomic<uint64_t> best{~0ull}; // lowest failing index
    };

    double now()
    {
        timespec ts;
        clock_gettime(CLOCK_MONOTONIC, &ts);
        return ts.tv_sec + ts.tv_nsec * 1e-9;
    }

    template<typename T>
    T* mapped(size_t n, int sharing)
    {
        void* p = mmap(nullptr, sizeof(T) * n, PROT_READ | PROT_WRITE, sharing | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED)
        {
            perror("mmap");
            exit(2);
        }
        return static_cast<T*>(p); // zero-filled
    }
    template<typename T>
    T* shared(size_t n = 1)
    {
        return mapped<T>(n, MAP_SHARED);
    }

    // Outside the heap, so that it does not count as growth; every process has its own.
    uint64_t* scratchChoices = nullptr;

    Record* currentRecord = nullptr;
    volatile uint64_t lastTickCase = ~0ull;
    volatile uint64_t caseSerial = 0;
    volatile int ticksInCase = 0;

    void onTick(int)
    {
        if (lastTickCase != caseSerial)
        {
            lastTickCase = caseSerial;
            ticksInCase = 0;
            return;
        }
        ticksInCase = ticksInCase + 1;
        if (ticksInCase >= kHangTicks)
        {
            if (currentRecord)
            {
                char const text[] = "hang: the case used more than 15 s of processor time";
                memcpy(currentRecord->message, text, sizeof(text));
            }
            _exit(kExitHang);
        }
    }

    void armHangTimer()
    {
        signal(SIGPROF, &onTick);
        itimerval timer{};
        timer.it_interval.tv_sec = kTickSeconds;
        timer.it_value.tv_sec = kTickSeconds;
        setitimer(ITIMER_PROF, &timer, nullptr);
    }

    size_t allocated()
    {
        return __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0;
    }

    enum class Outcome
    {
        Ok,
        Failed,
        Discarded,
    };

    Outcome execute(Source& source, Case& c)
    {
        caseSerial = caseSerial + 1;
        try
        {
            property.run(source, c);
        }
        catch (Discard const&)
        {
            return c.failed ? Outcome::Failed : Outcome::Discarded;
        }
        catch (Abandon const&)
        {
            return Outcome::Failed;
        }
        catch (std::exception const& ex)
        {
            c.fail(std::string{"an exception reached the harness: "} + ex.what());
        }
        catch (...)
        {
            c.fail("an exception of unknown type reached the harness");
        }
        return c.failed ? Outcome::Failed : Outcome::Ok;
    }

    // Runs the recorded choices again and reports the growth of the heap.
    long growthOnRepeat(Record& record, size_t count)
    {
        long before = static_cast<long>(allocated());
        {
            Source source{record, scratchChoices, count};
            Case c;
            (void)execute(source, c);
        }
        return static_cast<long>(allocated()) - before;
    }

    Outcome executeWithLeakCheck(Source& source, Case& c, Record& record, long before)
    {
        Outcome outcome = execute(source, c);
        if (outcome != Outcome::Ok || !property.checkLeaks || !__sanitizer_get_current_allocated_bytes)
            return outcome;

        // c itself owns memory: growth is only a hint that the case must be repeated and measured
        if (static_cast<long>(allocated()) <= before)
            return outcome;

        size_t count = record.count;
        std::copy(record.values, record.values + count, scratchChoices);
        long growth = 0;
        for (int i = 0; i < 3; i++)
        {
            growth = growthOnRepeat(record, count);
            if (growth <= 0)
                return outcome;
        }
        c.fail("leak: every run of this case leaves " + std::to_string(growth) + " more bytes allocated");
        return Outcome::Failed;
    }

    void setMessage(Record& record, std::string const& message)
    {
        size_t n = std::min(message.size(), sizeof(record.message) - 1);
        memcpy(record.message, message.data(), n);
        record.message[n] = 0;
    }

    uint64_t caseSeed(uint64_t seed, std::string const& variant, uint64_t index)
    {
        uint64_t h = hashBytes(property.id, strlen(property.id));
        h = hashBytes(variant.data(), variant.size(), h);
        h = hashBytes(&seed, sizeof(seed), h);
        uint64_t state = h ^ (index * 0x2545f4914f6cdd1dull);
        splitmix(state);
        return splitmix(state);
    }

    struct Options
    {
        uint64_t cases = 1000;
        uint64_t seed = 1;
        std::string variant = "A";
        unsigned workers = 8;
        double maxSeconds = 600;
        double shrinkSeconds = 40;
        std::string dict, out, hashes, replay;
    };

    struct Stats
    {
        uint64_t evaluations = 0, discarded = 0, nontrivial = 0, choices = 0, maxChoices = 0;
        bool truncated = false;
        std::map<std::string, uint64_t> labels;
        std::vector<std::string> samples;
        std::vector<uint64_t> hashes;
    };

    std::string escape(std::string const& s)
    {
        std::string r;
        for (char ch : s)
        {
            unsigned char u = static_cast<unsigned char>(ch);
            if (ch == '"' || ch == '\\')
                (r += '\\') += ch;
            else if (ch == '\n')
                r += "\\n";
            else if (u < 0x20 || u >= 0x7f)
            {
                char buffer[8];
                snprintf(buffer, sizeof(buffer), "\\u%04x", u);
                r += buffer;
            }
            else
                r += ch;
        }
        return r;
    }

    std::string tempDir;

    std::string workerPath(unsigned worker, char const* what)
    {
        return tempDir + "/w" + std::to_string(worker) + "." + what;
    }

    void redirectErrors(std::string const& path)
    {
        int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
        if (fd >= 0)
        {
            dup2(fd, 2);
            close(fd);
        }
    }

    std::string readFile(std::string const& path, size_t limit = 1 << 20)
    {
        std::ifstream in{path, std::ios::binary};
        std::string data(limit, '\0');
        in.read(data.data(), static_cast<std::streamsize>(limit));
        data.resize(static_cast<size_t>(in.gcount()));
        return data;
    }

    // The cases first, first + W, first + 2W, ... of one worker.
    [[noreturn]] void workerMain(Options const& o, unsigned worker, uint64_t first, Record& record, Shared& global, double deadline)
    {
        currentRecord = &record;
        redirectErrors(workerPath(worker, "err"));
        armHangTimer();

        Stats stats;
        stats.hashes.reserve(1 << 16);
        uint64_t done = 0;
        uint64_t nextSample = 3;
        for (uint64_t index = first; index < o.cases; index += o.workers)
        {
            if (index > global.best.load())
                break;
            if ((++done & 15) == 0 && now() > deadline)
            {
                stats.truncated = true;
                break;
            }

            record.index = index;
            record.count = 0;
            bool wantSample = false;
            {
                long before = static_cast<long>(allocated());
                Source source{record, caseSeed(o.seed, o.variant, index)};
                Case c;
                Outcome outcome = executeWithLeakCheck(source, c, record, before);
                if (outcome == Outcome::Failed)
                {
                    setMessage(record, c.message_);
                    record.failed = 1;
                    _exit(kExitOracle);
                }
                if (outcome == Outcome::Discarded)
                {
                    stats.discarded++;
                    continue;
                }
                stats.evaluations++;
                stats.choices += record.count;
                stats.maxChoices = std::max<uint64_t>(stats.maxChoices, record.count);
                for (char const* label : c.labels)
                    stats.labels[label]++;
                if (c.isNontrivial)
                {
                    stats.nontrivial++;
                    if (stats.hashes.size() < (1u << 20))
                        stats.hashes.push_back(c.keyed ? c.keyHash : source.choicesHash());
                    wantSample = worker < 3 && stats.nontrivial >= nextSample && stats.samples.size() < 4;
                }
            }
            if (wantSample && record.count <= 400)
            {
                nextSample = stats.nontrivial * 8;
                size_t count = record.count;
                std::copy(record.values, record.values + count, scratchChoices);
                Source source{record, scratchChoices, count};
                Case c{true};
                (void)execute(source, c);
                stats.samples.push_back(c.notes.substr(0, 1500));
            }
        }

        std::sort(stats.hashes.begin(), stats.hashes.end());
        stats.hashes.erase(std::unique(stats.hashes.begin(), stats.hashes.end()), stats.hashes.end());
        {
            std::ofstream out{workerPath(worker, "hashes"), std::ios::binary};
            out.write(reinterpret_cast<char const*>(stats.hashes.data()), static_cast<std::streamsize>(stats.hashes.size() * sizeof(uint64_t)));
        }
        {
            std::ofstream out{workerPath(worker, "stats")};
            out << stats.evaluations << ' ' << stats.discarded << ' ' << stats.nontrivial << ' ' << stats.choices << ' ' << stats.maxChoices << ' ' << stats.truncated << '\n';
            out << stats.labels.size() << '\n';
            for (auto const& [name, count] : stats.labels)
                out << count << ' ' << name << '\n';
            out << stats.samples.size() << '\n';
            for (auto const& sample : stats.samples)
                out << escape(sample) << '\n';
        }
        _exit(0);
    }

    struct Failure
    {
        std::string kind;
        std::string message;
        std::string errors; // sanitizer output
    };

    std::string describeStatus(int status, Record const& record, std::string const& errors, std::string& kind)
    {
        std::string summary;
        for (char const* marker : {"ERROR: AddressSanitizer", "runtime error:", "WARNING: ThreadSanitizer", "Assertion `"})
        {
            size_t at = errors.find(marker);
            if (at != std::string::npos)
            {
                size_t begin = errors.rfind('\n', at);
                begin = begin == std::string::npos ? 0 : begin + 1;
                summary = errors.substr(begin, errors.find('\n', at) - begin);
                break;
            }
        }

        if (WIFEXITED(status) && WEXITSTATUS(status) == kExitOracle)
        {
            kind = "oracle";
            return record.message;
        }
        if (WIFEXITED(status) && WEXITSTATUS(status) == kExitHang)
        {
            kind = "hang";
            return record.message;
        }
        if (WIFSIGNALED(status))
        {
            kind = "signal";
            return std::string{"killed by signal "} + strsignal(WTERMSIG(status)) + (summary.empty() ? "" : ": " + summary);
        }
        kind = "sanitizer";
        return summary.empty() ? "exit status " + std::to_string(WIFEXITED(status) ? WEXITSTATUS(status) : -1) : summary;
    }

    bool isFailure(int status)
    {
        return !(WIFEXITED(status) && (WEXITSTATUS(status) == 0 || WEXITSTATUS(status) == kExitDiscard));
    }

    // Waits for a child, and ends it if it is blocked for long.
    int waitChild(pid_t pid, double wallLimit)
    {
        double start = now();
        useconds_t pause = 200;
        while (true)
        {
            int status = 0;
            pid_t r = waitpid(pid, &status, WNOHANG);
            if (r == pid)
                return status;
            if (now() - start > wallLimit)
            {
                kill(pid, SIGKILL);
                waitpid(pid, &status, 0);
                return status;
            }
            usleep(pause);
            pause = std::min<useconds_t>(pause * 2, 20000);
        }
    }

    Record* probeRecord = nullptr;

    // Runs one list of choices in a process of its own.
    bool probe(std::vector<uint64_t> const& choices, Failure* failure, std::string* notes)
    {
        std::string errPath = tempDir + "/probe.err";
        std::string notesPath = tempDir + "/probe.notes";
        unlink(notesPath.c_str());
        probeRecord->count = 0;
        probeRecord->message[0] = 0;
        pid_t pid = fork();
        if (pid == 0)
        {
            currentRecord = probeRecord;
            redirectErrors(errPath);
            armHangTimer();
            Outcome outcome;
            {
                if (notes)
                {
                    Source source{*probeRecord, choices.data(), choices.size()};
                    Case c{true};
                    c.noteFd = open(notesPath.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0600); // survives a crash
                    outcome = execute(source, c);
                    if (outcome == Outcome::Failed)
                        setMessage(*probeRecord, c.message_);
                }
                else
                {
                    long before = static_cast<long>(allocated());
                    Source source{*probeRecord, choices.data(), choices.size()};
                    Case c;
                    outcome = executeWithLeakCheck(source, c, *probeRecord, before);
                    if (outcome == Outcome::Failed)
                        setMessage(*probeRecord, c.message_);
                }
            }
            _exit(outcome == Outcome::Failed ? kExitOracle : outcome == Outcome::Discarded ? kExitDiscard : 0);
        }
        int status = waitChild(pid, kWallStall);
        if (notes)
            *notes = readFile(notesPath);
        if (!isFailure(status))
            return false;
        if (failure)
        {
            failure->errors = readFile(errPath);
            failure->message = describeStatus(status, *probeRecord, failure->errors, failure->kind);
        }
        return true;
    }

    std::vector<uint64_t> recorded(Record const& record)
    {
        return {record.values, record.values + std::min<size_t>(record.count, kMaxChoices)};
    }

    std::vector<uint64_t> shrink(std::vector<uint64_t> best, double seconds)
    {
        double deadline = now() + seconds;
        unsigned attempts = 0;
        auto attempt = [&](std::vector<uint64_t> const& candidate) {
            if (candidate == best || now() > deadline || attempts > 6000)
                return false;
            attempts++;
            if (!probe(candidate, nullptr, nullptr))
                return false;
            std::vector<uint64_t> normalised = recorded(*probeRecord);
            best = normalised.size() <= candidate.size() && !normalised.empty() ? normalised : candidate;
            while (!best.empty() && best.back() == 0)
                best.pop_back(); // exhausted choices read as 0
            return true;
        };

        bool improved = true;
        while (improved && now() < deadline && attempts <= 6000)
        {
            improved = false;
            for (size_t block = std::max<size_t>(1, best.size() / 2); block >= 1; block /= 2)
            {
                for (size_t end = best.size(); end > 0 && now() < deadline;)
                {
                    size_t begin = end > block ? end - block : 0;
                    std::vector<uint64_t> candidate{best.begin(), best.begin() + static_cast<long>(begin)};
                    if (end <= best.size())
                        candidate.insert(candidate.end(), best.begin() + static_cast<long>(end), best.end());
                    if (attempt(candidate))
                    {
                        improved = true;
                        end = std::min(begin, best.size());
                    }
                    else
                    {
                        end = end > std::max<size_t>(1, block / 2) ? end - std::max<size_t>(1, block / 2) : 0;
                        end = std::min(end, best.size());
                    }
                }
            }
            for (size_t block : {16, 4, 1})
            {
                for (size_t i = 0; i < best.size(); i += block)
                {
                    std::vector<uint64_t> candidate = best;
                    for (size_t k = i; k < std::min(best.size(), i + block); k++)
                        candidate[k] = 0;
                    improved = attempt(candidate) || improved;
                }
            }
            for (size_t i = 0; i < best.size(); i++)
            {
                // lower one value by bisection
                uint64_t low = 0;
                while (i < best.size() && low < best[i] && now() < deadline)
                {
                    uint64_t middle = low + (best[i] - low) / 2;
                    std::vector<uint64_t> candidate = best;
                    candidate[i] = middle;
                    if (attempt(candidate))
                        improved = true;
                    else
                        low = middle + 1;
                }
            }
        }
        return best;
    }

    void writeReplay(Options const& o, std::vector<uint64_t> const* choices, std::string const& range, Failure const& failure, std::string const& notes)
    {
        std::ofstream out{o.replay};
        out << "property " << property.id << "\n";
        out << "variant " << o.variant << "\n";
        out << "kind " << failure.kind << "\n";
        out << "message " << escape(failure.message) << "\n";
        for (uint64_t n : globalDictionary.numbers)
            out << "num " << n << "\n";
        for (auto const& s : globalDictionary.strings)
        {
            out << "str ";
            for (unsigned char ch : s)
            {
                char buffer[4];
                snprintf(buffer, sizeof(buffer), "%02x", ch);
                out << buffer;
            }
            out << "\n";
        }
        if (choices)
        {
            out << "choices";
            for (uint64_t v : *choices)
                out << ' ' << v;
            out << "\n";
        }
        else
        {
            out << "range " << range << "\n";
        }
        out << "--- what follows is for the reader\n" << notes << "\n" << failure.message << "\n" << failure.errors << "\n";
    }

    void loadDictionaryLine(std::string const& line)
    {
        if (line.rfind("num ", 0) == 0)
            globalDictionary.numbers.push_back(strtoull(line.c_str() + 4, nullptr, 10));
        else if (line.rfind("str ", 0) == 0)
        {
            std::string s;
            for (size_t i = 4; i + 1 < line.size(); i += 2)
                s += static_cast<char>(strtoul(line.substr(i, 2).c_str(), nullptr, 16));
            globalDictionary.strings.push_back(s);
        }
    }

    void loadDictionary(std::string const& path)
    {
        std::ifstream in{path};
        std::string line;
        while (std::getline(in, line))
            loadDictionaryLine(line);
    }

    // Runs the cases from, from + step, ... to in one process; for failures that need what earlier cases left behind.
    bool probeRange(Options const& o, uint64_t from, uint64_t to, Failure* failure)
    {
        std::string errPath = tempDir + "/probe.err";
        probeRecord->message[0] = 0;
        pid_t pid = fork();
        if (pid == 0)
        {
            currentRecord = probeRecord;
            redirectErrors(errPath);
            armHangTimer();
            for (uint64_t index = from; index <= to; index += o.workers)
            {
                long before = static_cast<long>(allocated());
                Source source{*probeRecord, caseSeed(o.seed, o.variant, index)};
                Case c;
                if (executeWithLeakCheck(source, c, *probeRecord, before) == Outcome::Failed)
                {
                    setMessage(*probeRecord, c.message_);
                    _exit(kExitOracle);
                }
            }
            _exit(0);
        }
        int status = waitChild(pid, 600);
        if (!isFailure(status))
            return false;
        if (failure)
        {
            failure->errors = readFile(errPath);
            failure->message = describeStatus(status, *probeRecord, failure->errors, failure->kind);
        }
        return true;
    }

    int finish(int code)
    {
        std::string command = "rm -rf '" + tempDir + "'";
        if (!tempDir.empty() && tempDir.rfind("/tmp/", 0) == 0)
        {
            int ignored = system(command.c_str());
            (void)ignored;
        }
        return code;
    }

    // Confirms, shrinks, confirms again and writes the replay file. False if the failure does not reproduce.
    bool establish(Options const& o, std::vector<uint64_t> choices)
    {
        Failure failure;
        for (int i = 0; i < 2; i++)
            if (!probe(choices, &failure, nullptr))
                return false;

        double seconds = failure.kind == "hang" ? 60 : o.shrinkSeconds;
        std::vector<uint64_t> small = shrink(choices, seconds);
        bool good = true;
        for (int i = 0; i < 3 && good; i++)
            good = probe(small, &failure, nullptr);
        if (!good)
        {
            small = choices;
            for (int i = 0; i < 3; i++)
                if (!probe(small, &failure, nullptr))
                    return false;
        }

        Failure verboseFailure;
        std::string notes;
        (void)probe(small, &verboseFailure, &notes);
        writeReplay(o, &small, {}, failure, notes);
        printf("FAILED %s variant %s [%s] %s\n", property.id, o.variant.c_str(), failure.kind.c_str(), escape(failure.message).c_str());
        return true;
    }

    int runMode(Options const& o)
    {
        double start = now();
        double deadline = start + o.maxSeconds;
        Record* records = shared<Record>(o.workers);
        Shared* global = new (shared<Shared>()) Shared;
        struct Worker
        {
            pid_t pid = 0;
            uint64_t lastIndex = ~0ull;
            double lastProgress = 0;
            unsigned restarts = 0;
            uint64_t first = 0;
        };
        std::vector<Worker> workers(o.workers);
        auto spawn = [&](unsigned w, uint64_t first) {
            pid_t pid = fork();
            if (pid == 0)
                workerMain(o, w, first, records[w], *global, deadline);
            workers[w].pid = pid;
            workers[w].lastProgress = now();
            workers[w].first = first;
        };
        for (unsigned w = 0; w < o.workers; w++)
            spawn(w, w);

        uint64_t unreproduced = 0;
        struct Candidate
        {
            uint64_t index;
            unsigned worker;
            uint64_t first;
            std::vector<uint64_t> choices;
        };
        std::vector<Candidate> candidates;
        unsigned alive = o.workers;
        while (alive > 0)
        {
            bool any = false;
            for (unsigned w = 0; w < o.workers; w++)
            {
                Worker& worker = workers[w];
                if (!worker.pid)
                    continue;
                int status = 0;
                if (waitpid(worker.pid, &status, WNOHANG) == worker.pid)
                {
                    any = true;
                    worker.pid = 0;
                    alive--;
                    if (isFailure(status))
                    {
                        uint64_t index = records[w].index;
                        if (getenv("PBT_DEBUG"))
                            fprintf(stderr, "worker %u case %llu status %x: %s\n%s\n", w, static_cast<unsigned long long>(index), static_cast<unsigned>(status), records[w].message, readFile(workerPath(w, "err"), 3000).c_str());
                        candidates.push_back({index, w, worker.first, recorded(records[w])});
                        uint64_t best = global->best.load();
                        if (index < best)
                            global->best.store(index);
                    }
                    continue;
                }
                if (records[w].index != worker.lastIndex)
                {
                    worker.lastIndex = records[w].index;
                    worker.lastProgress = now();
                }
                else if (now() - worker.lastProgress > kWallStall)
                {
                    kill(worker.pid, SIGKILL);
                }
            }
            if (!any)
                usleep(2000);

            if (alive == 0 && !candidates.empty())
            {
                std::sort(candidates.begin(), candidates.end(), [](auto const& a, auto const& b) { return a.index < b.index; });
                for (auto const& candidate : candidates)
                {
                    if (establish(o, candidate.choices))
                        return 1;
                    // perhaps it needs what earlier cases left behind
                    for (uint64_t back = 1;; back *= 8)
                    {
                        uint64_t span = back * o.workers;
                        uint64_t from = candidate.index >= candidate.first + span ? candidate.index - span : candidate.first;
                        Failure failure;
                        bool good = true;
                        for (int i = 0; i < 3 && good; i++)
                            good = probeRange(o, from, candidate.index, &failure);
                        if (good)
                        {
                            std::ostringstream range;
                            range << o.seed << ' ' << from << ' ' << candidate.index << ' ' << o.workers;
                            writeReplay(o, nullptr, range.str(), failure, "the failure needs the earlier cases of the range to have run in the same process");
                            printf("FAILED %s variant %s [%s] %s\n", property.id, o.variant.c_str(), failure.kind.c_str(), escape(failure.message).c_str());
                            return 1;
                        }
                        if (from == candidate.first)
                            break;
                    }
                }
                // nothing reproduces (the machine ended a worker, for example): go on behind those cases
                unreproduced += candidates.size();
                fprintf(stderr, "note: %zu worker(s) ended without a reproducible failure\n", candidates.size());
                std::vector<Candidate> ended;
                ended.swap(candidates);
                global->best.store(~0ull);
                for (auto const& candidate : ended)
                {
                    if (workers[candidate.worker].restarts++ < 3 && now() < deadline)
                    {
                        spawn(candidate.worker, candidate.index + o.workers);
                        alive++;
                    }
                }
            }
        }

        Stats total;
        for (unsigned w = 0; w < o.workers; w++)
        {
            std::ifstream in{workerPath(w, "stats")};
            uint64_t evaluations = 0, discarded = 0, nontrivial = 0, choices = 0, maxChoices = 0;
            int truncated = 0;
            if (!(in >> evaluations >> discarded >> nontrivial >> choices >> maxChoices >> truncated))
                continue;
            total.evaluations += evaluations;
            total.discarded += discarded;
            total.nontrivial += nontrivial;
            total.choices += choices;
            total.maxChoices = std::max(total.maxChoices, maxChoices);
            total.truncated = total.truncated || truncated;
            size_t n = 0;
            in >> n;
            for (size_t i = 0; i < n; i++)
            {
                uint64_t count = 0;
                std::string name;
                in >> count;
                std::getline(in >> std::ws, name);
                total.labels[name] += count;
            }
            in >> n;
            std::string line;
            std::getline(in, line);
            for (size_t i = 0; i < n; i++)
            {
                std::getline(in, line);
                total.samples.push_back(line); // already escaped
            }
            std::string data = readFile(workerPath(w, "hashes"), (1u << 20) * sizeof(uint64_t));
            size_t count = data.size() / sizeof(uint64_t);
            size_t old = total.hashes.size();
            total.hashes.resize(old + count);
            memcpy(total.hashes.data() + old, data.data(), count * sizeof(uint64_t));
        }
        std::sort(total.hashes.begin(), total.hashes.end());
        total.hashes.erase(std::unique(total.hashes.begin(), total.hashes.end()), total.hashes.end());

        if (!o.hashes.empty())
        {
            std::ofstream out{o.hashes, std::ios::binary};
            out.write(reinterpret_cast<char const*>(total.hashes.data()), static_cast<std::streamsize>(total.hashes.size() * sizeof(uint64_t)));
        }
        if (!o.out.empty())
        {
            std::ofstream out{o.out};
            out << "{\"property\":\"" << property.id << "\",\"rule\":\"" << escape(property.rule) << "\",\"variant\":\"" << o.variant << "\",\"planned\":" << o.cases << ",\"evaluations\":" << total.evaluations << ",\"discarded\":" << total.discarded
                << ",\"nontrivial\":" << total.nontrivial << ",\"distinct_nontrivial\":" << total.hashes.size() << ",\"choices\":" << total.choices << ",\"max_choices\":" << total.maxChoices << ",\"truncated\":" << (total.truncated ? "true" : "false")
                << ",\"unreproduced\":" << unreproduced << ",\"seconds\":" << (now() - start) << ",\"labels\":{";
            bool first = true;
            for (auto const& [name, count] : total.labels)
            {
                out << (first ? "" : ",") << "\"" << escape(name) << "\":" << count;
                first = false;
            }
            out << "},\"samples\":[";
            first = true;
            for (auto const& sample : total.samples)
            {
                out << (first ? "" : ",") << "\"" << sample << "\"";
                first = false;
            }
            out << "]}\n";
        }
        return 0;
    }

    int replayMode(std::string const& path)
    {
        std::ifstream in{path};
        std::string line;
        std::vector<uint64_t> choices;
        bool hasChoices = false;
        Options o;
        std::string range;
        while (std::getline(in, line) && line.rfind("---", 0) != 0)
        {
            loadDictionaryLine(line);
            if (line.rfind("variant ", 0) == 0)
                o.variant = line.substr(8);
            if (line.rfind("choices", 0) == 0)
            {
                std::istringstream values{line.substr(7)};
                uint64_t v = 0;
                while (values >> v)
                    choices.push_back(v);
                hasChoices = true;
            }
            if (line.rfind("range ", 0) == 0)
                range = line.substr(6);
        }
        Failure failure;
        bool failed = false;
        std::string notes;
        if (hasChoices)
        {
            failed = probe(choices, &failure, nullptr);
            Failure ignored;
            (void)probe(choices, &ignored, &notes);
        }
        else
        {
            uint64_t from = 0, to = 0;
            std::istringstream values{range};
            values >> o.seed >> from >> to >> o.workers;
            failed = probeRange(o, from, to, &failure);
        }
        printf("%s\n", notes.c_str());
        if (!failed)
        {
            printf("PASSED %s\n", property.id);
            return 0;
        }
        printf("FAILED %s [%s] %s\n%s\n", property.id, failure.kind.c_str(), failure.message.c_str(), failure.errors.c_str());
        return 1;
    }

    int bytesMode(Options const& o, std::string const& path)
    {
        std::string data = readFile(path);
        // decode in a child, to obtain the choices even if the case crashes
        probeRecord->count = 0;
        pid_t pid = fork();
        if (pid == 0)
        {
            currentRecord = probeRecord;
            redirectErrors("/dev/null");
            armHangTimer();
            Source source{*probeRecord, reinterpret_cast<unsigned char const*>(data.data()), data.size()};
            Case c;
            (void)execute(source, c);
            _exit(0);
        }
        waitChild(pid, kWallStall);
        return establish(o, recorded(*probeRecord)) ? 1 : 0;
    }
}

pbt::Dictionary& pbt::dictionary()
{
    return globalDictionary;
}

void pbt::writeNote(int fd, std::string const& text)
{
    ssize_t ignored = ::write(fd, text.data(), text.size());
    (void)ignored;
}

std::string pbt::show(std::string_view bytes, size_t limit)
{
    std::string r = "\"";
    for (size_t i = 0; i < bytes.size() && i < limit; i++)
    {
        unsigned char u = static_cast<unsigned char>(bytes[i]);
        if (u == '"' || u == '\\')
            (r += '\\') += static_cast<char>(u);
        else if (u < 0x20 || u >= 0x7f)
        {
            char buffer[8];
            snprintf(buffer, sizeof(buffer), "\\x%02x", u);
            r += buffer;
        }
        else
            r += static_cast<char>(u);
    }
    r += "\"";
    if (bytes.size() > limit)
        r += "...(" + std::to_string(bytes.size()) + " bytes)";
    return r;
}

#ifdef PBT_FUZZ

// The same property driven by libFuzzer.
extern "C" int LLVMFuzzerInitialize(int*, char***)
{
    if (char const* path = getenv("PBT_DICT"))
        loadDictionary(path);
    return 0;
}

extern "C" int LLVMFuzzerTestOneInput(uint8_t const* data, size_t size)
{
    static Record* record = shared<Record>();
    Source source{*record, data, size};
    Case c;
    Outcome outcome = execute(source, c);
    if (outcome == Outcome::Failed)
    {
        fprintf(stderr, "ORACLE FAILURE: %s\n", c.message_.c_str());
        abort();
    }
    return outcome == Outcome::Discarded ? -1 : 0;
}

#else

int main(int argc, char** argv)
{
    std::vector<std::string> args{argv + 1, argv + argc};
    if (args.empty())
        return 2;

    char pattern[] = "/tmp/pbt.XXXXXX";
    if (!mkdtemp(pattern))
        return 2;
    tempDir = pattern;
    scratchChoices = mapped<uint64_t>(kMaxChoices, MAP_PRIVATE);
    probeRecord = shared<Record>();

    // the sandbox has no swap: core files and runaway cases must not hurt it
    rlimit none{0, 0};
    setrlimit(RLIMIT_CORE, &none);

    Options o;
    std::string mode = args[0];
    std::string file;
    for (size_t i = 1; i < args.size(); i++)
    {
        auto value = [&] { return i + 1 < args.size() ? args[++i] : std::string{}; };
        if (args[i] == "--cases")
            o.cases = strtoull(value().c_str(), nullptr, 10);
        else if (args[i] == "--seed")
            o.seed = strtoull(value().c_str(), nullptr, 10);
        else if (args[i] == "--variant")
            o.variant = value();
        else if (args[i] == "--workers")
            o.workers = static_cast<unsigned>(strtoul(value().c_str(), nullptr, 10));
        else if (args[i] == "--max-seconds")
            o.maxSeconds = strtod(value().c_str(), nullptr);
        else if (args[i] == "--dict")
            o.dict = value();
        else if (args[i] == "--out")
            o.out = value();
        else if (args[i] == "--hashes")
            o.hashes = value();
        else if (args[i] == "--replay")
            o.replay = value();
        else
            file = args[i];
    }
    if (!o.dict.empty())
        loadDictionary(o.dict);

    int code = 2;
    if (mode == "run")
        code = runMode(o);
    else if (mode == "replay")
        code = replayMode(file);
    else if (mode == "bytes")
        code = bytesMode(o, file);
    return finish(code);
}

#endif
