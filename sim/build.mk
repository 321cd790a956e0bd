# Builds the simulator for one variant from the current /repo working tree.
# make -f build.mk REPO=/repo OUT=<dir> VARIANT=<plain|slices|compact|mallocfail>
REPO ?= /repo
SRC := $(REPO)/discrete_src
SIM := $(dir $(lastword $(MAKEFILE_LIST)))
VARIANT ?= slices

DEF_plain := -DWRENCH_LINUX_TCP
DEF_slices := -DWRENCH_LINUX_TCP -DWRENCH_TIME_SLICES -DWRENCH_PROTECT_STACK_FROM_OVERFLOW
DEF_compact := $(DEF_slices) -DWRENCH_COMPACT
DEF_mallocfail := $(DEF_slices) -DWRENCH_HANDLE_MALLOC_FAIL
DEFS := -DWRENCH_LINUX_FILE_IO $(DEF_$(VARIANT))

COMMON := -g1 -fsanitize=address -fno-omit-frame-pointer -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -iquote $(SRC) $(DEFS) -w -MMD
WCXX := g++ -std=c++98 -O1 $(COMMON)
SCXX := g++ -std=c++17 -O1 $(COMMON) -DSIM_VARIANT_$(VARIANT)=1

SKIP := %/debugger %/arduino_lib %/esp32_lib %/std_io_little_spiffs %/arduino_comm %/win32_comm %/wrench_cli %/wrench_min utils/test_%
WNAMES := $(filter-out $(SKIP),$(patsubst $(SRC)/%.cpp,%,$(wildcard $(SRC)/*/*.cpp)))
# the compiler front end is outside the simulated run-time envelope: not instrumented, and linked
# last so that shared inline functions come from the instrumented objects
WNAMES := $(filter-out cc/%,$(WNAMES)) $(filter cc/%,$(WNAMES))
WOBJS := $(WNAMES:%=$(OUT)/w/%.o)
SNAMES := $(basename $(notdir $(wildcard $(SIM)*.cpp)))
SOBJS := $(SNAMES:%=$(OUT)/s/%.o)

WRAPS := fopen fopen64 open open64 openat read write lseek lseek64 close fsync fdatasync stat stat64 lstat fstat unlink remove rename access pread pwrite ftruncate \
	socket bind listen accept accept4 connect send recv sendto recvfrom shutdown poll select setsockopt getsockopt getaddrinfo freeaddrinfo gethostbyname fcntl fcntl64 ioctl getsockname getpeername \
	time gettimeofday clock_gettime usleep nanosleep sleep fgetc getc getchar fgets signal
LDW := $(foreach f,$(WRAPS),-Wl,--wrap=$(f))

$(OUT)/sim: $(SOBJS) $(WOBJS)
	g++ -fsanitize=address -o $@ $^ $(LDW) -ldl -lm
$(OUT)/w/cc/%.o: $(SRC)/cc/%.cpp
	@mkdir -p $(dir $@)
	$(WCXX) -fno-sanitize=address -c -o $@ $<
$(OUT)/w/%.o: $(SRC)/%.cpp
	@mkdir -p $(dir $@)
	$(WCXX) -c -o $@ $<
$(OUT)/s/%.o: $(SIM)%.cpp
	@mkdir -p $(dir $@)
	$(SCXX) -c -o $@ $<
-include $(WOBJS:.o=.d) $(SOBJS:.o=.d)
