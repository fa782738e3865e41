# make -f build.mk R=/repo B=builddir DRV="drv_async ..."
R ?= /repo
B ?= /tmp/vbuild
H := $(dir $(lastword $(MAKEFILE_LIST)))
CXX = g++
INC = -I$(R) -I$(R)/include -I$(R)/base -I$(B)/gen
TLS ?= -DLEARNLOG_USE_TLS
NDEBUG ?= -DNDEBUG
DEF = -std=c++11 $(TLS) -DLEARNLOG_USE_BUNDLED_FMT $(NDEBUG) -D_GLIBCXX_ASSERTIONS
OPT = -O1 -g1 -w
INS = -fsanitize=thread
LIBSRC := $(wildcard $(R)/base/*.cpp $(R)/src/*.cpp $(R)/sinks/*.cpp $(R)/sinks/formatters/*.cpp)
LIBOBJ := $(patsubst $(R)/%.cpp,$(B)/lib/%.o,$(LIBSRC))
all: $(DRV:%=$(B)/%)
$(B)/gen/version.h:
	@mkdir -p $(B)/gen
	@touch $@
$(B)/lib/%.o: $(R)/%.cpp $(B)/gen/version.h
	@mkdir -p $(dir $@)
	$(CXX) $(DEF) $(OPT) $(INS) $(INC) -c $< -o $@
$(B)/fmt.o: $(R)/base/fmt/format.cc
	@mkdir -p $(B)
	$(CXX) $(DEF) -O1 -w $(INC) -c $< -o $@
$(B)/vsched.o: $(H)vsched.cpp $(H)vsched.h
	@mkdir -p $(B)
	$(CXX) -std=c++17 -O2 -g1 -fno-threadsafe-statics -c $< -o $@
$(B)/harness.o: $(H)harness.cpp $(H)harness.h
	@mkdir -p $(B)
	$(CXX) -std=c++17 -O1 -g1 -c $< -o $@
$(B)/%.o: $(H)%.cpp $(B)/gen/version.h
	@mkdir -p $(B)
	$(CXX) $(DEF) $(OPT) $(INS) -I$(H) $(INC) -c $< -o $@
$(DRV:%=$(B)/%): $(B)/%: $(B)/%.o $(B)/vsched.o $(B)/harness.o $(B)/fmt.o $(LIBOBJ)
	$(CXX) -o $@ $^ -lpthread -ldl -rdynamic
.SECONDARY:
