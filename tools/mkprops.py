#!/usr/bin/env python3
# Source of /verif/properties.jsonl (kept as a script so that the texts stay readable).
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
            mechanism=[dict(name=a,where=b) for a,b in mech],
            observe_at=list(observe),hook_needed=None)))
D="src/duma.c"
p("C01","Overrun guard: the first byte past every block is inaccessible",
 "With protection above (the default), every successful allocation of n>=1 bytes returns a block whose n bytes are all readable and writable and which is followed by at least one whole inaccessible page. The distance from the end of the block to that page is smaller than the alignment in force for the block (zero for alignment 1), so any access beyond the padding traps.",
 ["inputs","histories","configurations"],"every size, every power-of-two alignment, every allocation function (C and C++), every prior history of allocations and frees",
 "Tests use a handful of sizes and one alignment; placement depends on arithmetic over size, alignment and the address the region happens to have.",
 [D,"paging.h"],[("placement of user, guard and end address for above-protection",D+" _duma_allocate"),("page protection calls","paging.h Page_AllowAccess/Page_DenyAccess")],
 [("slot table","internal/user/guard address and sizes of every block",D)],["page permissions around the returned address"])
p("C02","Underrun guard: the byte before every block is inaccessible",
 "With protection below selected, every successful allocation of n>=1 bytes returns a block whose n bytes are all readable and writable and whose start address is immediately preceded by at least one whole inaccessible page.",
 ["inputs","histories","configurations"],"every size, every power-of-two alignment including those above the page size, every history",
 "The below-protection layout is exercised with one or two sizes; large alignments and region reuse are not sampled.",
 [D,"paging.h"],[("placement for below-protection",D+" _duma_allocate")],[],["page permissions around the returned address"])
p("C03","Returned addresses honour the alignment; bad alignments are refused",
 "Every successful allocation of n>=1 bytes starts at a multiple of the alignment in force: the explicit nonzero one for memalign, posix_memalign and valloc (the page size), otherwise the configured default alignment, or the largest power of two not above the size when the size is smaller than the default. A nonzero alignment that is not a power of two never yields a block of n>=1 bytes: memalign terminates the program with a diagnostic, and posix_memalign returns EINVAL (also for alignments below the pointer size) leaving its output untouched.",
 ["inputs","configurations"],"every alignment value of the full machine word, every size, every default alignment setting",
 "Tests try a few small powers of two; the rejection test is an arithmetic condition over all 64-bit alignments.",
 [D],[("alignment selection and power-of-two test",D+" _duma_allocate"),("argument check",D+" _duma_posix_memalign")],[],["returned address, returned error code"])
p("C04","Live blocks never overlap and operations leave other live blocks alone",
 "The memory of any two live blocks is disjoint, and a newly returned block never intersects memory of a block that is still live. No allocation, free, realloc, check or leak report changes the content, the accessibility or the recorded size of any live block other than the one passed to it, including when the bookkeeping table has to grow.",
 ["histories","inputs"],"every history of allocations, frees and reallocs of any length and any sizes",
 "Histories are unbounded; tests run a few thousand operations of similar sizes and rarely look at the other blocks.",
 [D,"duma_hlp.h","paging.h"],[("choice and splitting of a free region",D+" _duma_allocate"),("table growth",D+" allocateMoreSlots"),("reclaiming protected regions","duma_hlp.h reduceProtectedMemory")],
 [("slot table","partition of the managed address space into regions",D)],["content and permissions of every live block"])
p("C05","Freed memory is inaccessible and is not handed out while protected",
 "When free, delete or realloc releases a block that DUMA accepts, every page that held it is inaccessible as soon as the call returns, for every setting of the free-protection budget. With unlimited protection (the default, no allocation limit set, the system granting memory) no byte of a freed block is ever part of a later allocation; with a finite budget a freed block that is still retained is inaccessible, is not reused, and keeps being recognised as already freed.",
 ["histories","inputs","configurations"],"every history and every value of the free-protection setting",
 "Absence of reuse and of access is a statement about all later histories; tests touch one freed block right after freeing it.",
 [D,"duma_hlp.h","paging.h"],[("protect or unmap on deallocation",D+" _duma_deallocate"),("staged reclaim of protected regions","duma_hlp.h reduceProtectedMemory")],[("slot state","free / in use / protected / partly protected",D)],["page permissions of freed addresses"])
p("C06","Invalid and double frees are diagnosed and change nothing",
 "Passing to free, realloc, operator delete, duma_check or malloc_usable_size an address that is not the start of a live block (never allocated, interior, already freed, or belonging to DUMA itself) terminates the program with a diagnostic before any block, protection or bookkeeping entry is changed. NULL and the shared zero-size address are the only exceptions.",
 ["inputs","histories"],"every 64-bit address and every history",
 "Tests cover one double free; the set of invalid addresses and of table states is unbounded.",
 [D,"duma_hlp.h"],[("lookup by start address","duma_hlp.h slotForUserAddress/nearestSlotForUserAddress"),("state checks",D+" _duma_deallocate, duma_check, _duma_malloc_usable_size, _duma_realloc")],[],["termination with diagnostic; state unchanged"])
p("C07","Correct programs are never stopped and NULL is a no-op",
 "A program that frees, reallocates, checks or measures only live blocks (with the matching function family and undamaged surroundings), NULL or the shared zero-size address is never terminated by DUMA and DUMA never faults on its own account, as long as the operating system grants memory. free(NULL), delete of NULL, duma_check(NULL) and malloc_usable_size(NULL) have no effect.",
 ["inputs","histories","configurations"],"every live block in every reachable table state",
 "Absence of false alarms is universal over histories; the tests only show particular histories pass.",
 [D,"duma_hlp.h","paging.h","src/sem_inc.c"],[("lookup and checks",D+" _duma_deallocate, duma_check, _duma_realloc"),("slot reserve before allocation",D+" _duma_allocate")],[],["no termination, no fault"])
p("C08","No-man's-land is filled and every overwrite of it is reported",
 "On allocation every accessible byte of a block's pages outside the block itself is set to the configured slack value. Freeing, reallocating or checking a block terminates with a diagnostic if any such byte of that block differs from the slack value, a check of all blocks does so for every live block, and with a check frequency of N every N-th allocation or deallocation performs the check of all blocks.",
 ["inputs","histories","configurations"],"every damaged byte position of every live block, every slack value, every check frequency",
 "Which byte is damaged and where the block lies are universally quantified; tests damage one byte of one block, if any.",
 [D,"duma_hlp.h"],[("filling","duma_hlp.h _duma_init_slack"),("checking","duma_hlp.h _duma_check_slack/_duma_check_all_slacks"),("frequency counter",D+" _duma_allocate, _duma_deallocate")],[],["slack bytes; termination with diagnostic"])
p("C09","Initial contents: fill byte, zeroed calloc, exact strdup copies",
 "Memory from malloc, memalign, posix_memalign, valloc, realloc(NULL,n) and operator new has every byte equal to the configured fill value when that value is not -1. Memory from calloc(n,m) has all n*m bytes zero, and strdup(s) returns a fresh block holding exactly the bytes of s up to and including its terminator.",
 ["inputs","configurations"],"every size, fill value and string of any length",
 "Every byte of every size must hold the value; tests read a few.",
 [D],[("filling after placement",D+" _duma_allocate"),("copy loop",D+" _duma_strdup")],[],["bytes of the returned block"])
p("C10","realloc preserves contents, zero-extends, and fails without damage",
 "realloc(p,n) for a live block p and n>=1 returns a block of n bytes whose first min(old,n) bytes equal the old contents and whose remaining bytes are zero, and p is freed. If it returns NULL for n>=1 the old block is still live and unchanged; realloc(p,0) frees p and returns NULL; realloc(NULL,n) behaves as malloc(n).",
 ["inputs","histories","fault_sequences"],"every old and new size, every content, success or failure of the system's memory supply",
 "All size pairs and byte positions, plus allocation failure, which tests do not inject.",
 [D],[("allocate, copy, release",D+" _duma_realloc")],[],["contents of new block, state of old block"])
p("C11","Zero-size requests follow the configured strategy",
 "For a request of zero bytes strategy 0 terminates with a diagnostic, 1 returns NULL, 2 returns one constant non-null address that is inaccessible, and 3 returns a non-null address inside a page that is inaccessible, that belongs to no other live block, and that can be freed. C functions follow the malloc strategy and C++ operators the new strategy.",
 ["inputs","histories","configurations"],"every allocation function, strategy value and history",
 "Distinctness and inaccessibility must hold against every other live block; no test sets the strategies.",
 [D,"src/dumapp.cpp"],[("strategy selection",D+" _duma_allocate"),("shared inaccessible address",D+" _duma_init")],[],["returned address and its page permission"])
p("C12","Impossible or unsatisfiable sizes fail cleanly, never a short block",
 "A successful allocation always provides the full number of bytes asked for. Requests whose size cannot be represented or provided (sizes near the top of the address range, calloc products that overflow, sizes the operating system refuses) end in NULL, or in termination with a diagnostic when exit-on-failure is set, and leave all other blocks usable.",
 ["inputs","fault_sequences"],"every size and element-count pair of the full machine word, every refusal by the system",
 "Wrap-around needs particular huge sizes that tests never pass.",
 [D,"paging.h"],[("size arithmetic",D+" _duma_allocate, _duma_calloc"),("mapping request","paging.h Page_Create")],[],["returned pointer and size"])
p("C13","DUMA's own bookkeeping is inaccessible to the program",
 "Whenever control is in user code, that is after every API call returns, the pages that hold DUMA's block table are inaccessible, so stray writes of the program cannot corrupt it. This holds on success and failure returns, and also after the table has moved or grown.",
 ["histories","inputs"],"every API function, every return path, every table size",
 "Tests never look at the protection of the internal pages; a missed re-protection on one path goes unnoticed.",
 [D,"paging.h"],[("open on entry, close on exit",D+" all entry points"),("new table protection",D+" allocateMoreSlots, _duma_init")],[("slot table pages","inaccessible outside DUMA",D)],["permissions of the internal pages at return"])
p("C14","Shared bookkeeping is only touched under the lock, and the lock is released",
 "Every access of any API function to the shared block table happens while the calling thread holds DUMA's lock, and what it uses was read while holding it. Every API function that returns releases the lock exactly as often as it acquired it.",
 ["schedules","inputs","histories"],"every interleaving of threads (by locking discipline), every path through every API function",
 "Races and lost releases depend on interleavings and rare paths that a few threaded test runs do not reach.",
 [D,"src/sem_inc.c"],[("acquire/release pairs",D+" all entry points")],[("lock","recursive process-wide lock","src/sem_inc.c")],["lock depth at each table access and at return"])
p("C15","The lock is a correct recursive mutual-exclusion lock",
 "After acquiring the lock n times a thread excludes all other threads until it has released it n times, and after the last release another thread can acquire it. A re-acquisition by the owner never blocks, a release by the owner never blocks or aborts, and a release of a lock that nobody holds is diagnosed.",
 ["schedules","histories"],"every sequence of acquisitions and releases of any nesting depth by any number of threads",
 "Nesting and interleavings are unbounded; the tests use nesting depth one.",
 ["src/sem_inc.c"],[("owner and count",  "src/sem_inc.c lock/unlock, DUMA_get_sem/DUMA_rel_sem")],[("owner, nesting count","owner thread and number of outstanding acquisitions","src/sem_inc.c")],["state of the underlying mutex"])
p("C16","Protected-memory budget is respected and its accounting is exact",
 "With a positive free-protection budget of B kB the total of freed-but-retained memory never exceeds B kB after any operation. The tracked total always equals the true sum over retained regions, so that over any history memory keeps being retained within the budget and reclaiming frees what it reports.",
 ["histories","inputs","configurations"],"every history and every budget",
 "Accounting drift needs long histories with partial reclaim; tests run one memory-limit scenario.",
 [D,"duma_hlp.h"],[("budget test",D+" _duma_deallocate"),("staged reclaim","duma_hlp.h reduceProtectedMemory")],[("protected sum","kB of retained freed memory",D)],["sum of retained regions"])
p("C17","The leak report lists exactly the live user blocks",
 "The leak report names every live block whose allocation site is known (every live block when all leaks are requested) exactly once with its address and size, never a freed block or an internal one. Its totals state the number reported and the number of remaining live blocks without site information.",
 ["histories","configurations"],"every table state",
 "The tests do not compare the report with the set of live blocks, over any history.",
 [D],[("walk over the table",D+" DUMA_delFrame")],[],["printed report"])
p("C18","Mismatched allocation and deallocation families are diagnosed",
 "Releasing a live block through a function of another family than the one that allocated it (malloc family, scalar new, array new, member forms) terminates with a diagnostic before the block is changed; within a family the release is accepted for every pair of functions. This holds for every allocating and every releasing entry point, C and C++.",
 ["inputs","programs"],"all pairs of allocation and deallocation entry points",
 "Tests cover a few of the pairs.",
 [D,"src/dumapp.cpp","duma.h"],[("family table and comparison",D+" _duma_allocDesc, _duma_deallocate"),("operator definitions","src/dumapp.cpp")],[],["termination with diagnostic"])
p("C19","Memory and string functions compute the standard results",
 "For all arguments their standard contracts allow, memcpy, memmove (also overlapping), strcpy, strncpy, strcat and strncat write exactly the bytes the C standard prescribes, change no other byte, and return the destination. They do so for every length, including lengths of 4 GiB and more.",
 ["inputs"],"every length, content and relative placement of source and destination",
 "Lengths and placements are unbounded; tests copy a few short strings.",
 [D],[("copy loops",D+" _duma_memcpy .. _duma_strncat")],[],["destination bytes"])
p("C20","Overlapping copies are diagnosed, disjoint ones never are",
 "memcpy terminates with a diagnostic, before writing anything, whenever source and destination ranges overlap without being identical (destination below source is tolerated only when the overlap option is set); strcpy, strncpy, strcat and strncat do so whenever the place they write to starts strictly inside the source text that would be read (behind its first character). Calls with disjoint regions are never diagnosed.",
 ["inputs","configurations"],"every pair of addresses and every length",
 "Boundary cases of two ranges over all addresses and sizes; tests use one overlapping call.",
 [D],[("overlap tests",D+" _duma_memcpy, _duma_strcpy, _duma_strncpy, _duma_strcat, _duma_strncat")],[],["termination with diagnostic"])
p("C21","operator new failure semantics: handler, bad_alloc, nothrow null",
 "When memory cannot be obtained the throwing operators call the installed new-handler repeatedly until memory is obtained or the handler leaves, and throw bad_alloc when no handler is installed; they never return null. The nothrow operators return null instead of throwing bad_alloc, and the installed handler is left installed.",
 ["inputs","fault_sequences"],"every operator, any number of failures before success, every handler behaviour",
 "Allocation failure under C++ operators is not injected by any test.",
 ["src/dumapp.cpp"],[("retry loop","src/dumapp.cpp duma_new_operator")],[],["returned pointer or exception"])
p("C22","Environment settings take effect as documented",
 "Each supported environment option, when present under its documented name, sets exactly its own setting to the documented interpretation of its value (booleans, clamped fill bytes, accepted ranges, otherwise unchanged), and absent variables leave the defaults. Lookup matches variable names exactly, never a prefix or extension of the name.",
 ["inputs","configurations"],"every environment, every value",
 "Tests set one or two variables.",
 [D],[("lookup and interpretation",D+" duma_getenvvars, duma_getenv")],[],["option values"])
p("C23","Numbers and text in diagnostics are rendered exactly",
 "For every value, addresses are rendered in hexadecimal and sizes and counts in decimal with the exact value and sign, strings are rendered verbatim, and a null string as NULL. Formatting any diagnostic never writes outside its buffer; text is cut only when it does not fit.",
 ["inputs"],"every number of the machine word and every string, including very long file names",
 "All values and string lengths; tests do not read the messages.",
 ["src/print.c"],[("number rendering","src/print.c sprintAddr/sprintLong"),("formatter","src/print.c DUMA_vsprintf")],[],["bytes of the message"])
p("C24","malloc_usable_size reports exactly the requested size",
 "For every live block malloc_usable_size returns the exact size requested at its allocation (or at its last realloc), and 0 for NULL and for the shared zero-size address.",
 ["inputs","histories"],"every live block in every table state",
 "Must hold for every size after every history, including table growth.",
 [D],[("lookup",D+" _duma_malloc_usable_size")],[],["returned size"])
p("C25","Initialisation yields a consistent, protected start state",
 "The first use of any entry point, in any order and also when initialisation is entered recursively, sets up the block table exactly once, describing exactly the memory DUMA owns, and leaves it inaccessible. A run-time page size different from the compiled one is refused with a diagnostic.",
 ["histories","configurations","fault_sequences"],"every first entry point, every page size, refusal of the first mappings",
 "The start state is fixed per process and is never inspected by the tests.",
 [D],[("constructor",D+" _duma_init, duma_init")],[],["table state after initialisation"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,x["id"]
        f.write(json.dumps(x)+"\n")
print(len(P))
