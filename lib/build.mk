# Builds the code under test from /repo's current working tree, and one check.
REPO ?= /repo
OUT ?= /verif/build
ASAN ?=
SAN_release =
SAN_asan = -fsanitize=address -fno-omit-frame-pointer
SRC := $(shell find $(REPO)/heclib/heclib_c/src -name '*.c' | sort) $(REPO)/heclib/hecdss/hecdss.c
INC := -I$(REPO)/heclib/heclib_c/src/headers -I$(REPO)/heclib/hecdss
WRAPS := open close read write pread pwrite lseek fsync fdatasync lockf ftruncate stat fstat unlink remove rename access realpath usleep clock_gettime getpid
WRAPF := $(foreach w,$(WRAPS),-Wl,--wrap=$(w))
CF := -std=gnu99 -O1 -g -w -U_FORTIFY_SOURCE -fno-strict-aliasing
CXF := -std=gnu++17 -O1 -g -w -U_FORTIFY_SOURCE -fno-strict-aliasing
HDRS := $(wildcard $(REPO)/heclib/heclib_c/src/headers/*.h) $(REPO)/heclib/hecdss/hecdss.h
LIBH := $(wildcard /verif/lib/*.h)

define FLAVOUR
OBJ_$(1) := $$(patsubst $(REPO)/%.c,$(OUT)/$(1)/%.o,$$(SRC))
$(OUT)/$(1)/libdss.a: $$(OBJ_$(1))
	@rm -f $$@; ar rcs $$@ $$(OBJ_$(1))
$(OUT)/$(1)/%.o: $(REPO)/%.c $$(HDRS)
	@mkdir -p $$(dir $$@)
	@gcc $$(CF) $$(SAN_$(1)) $$(INC) -c $$< -o $$@
$(OUT)/$(1)/mclib/%.o: /verif/lib/%.cpp $$(LIBH) $$(HDRS)
	@mkdir -p $$(dir $$@)
	@g++ $$(CXF) $$(SAN_$(1)) $$(INC) -I/verif/lib -c $$< -o $$@
$(OUT)/$(1)/%.check: /verif/checks/%.cpp $(OUT)/$(1)/libdss.a $$(patsubst /verif/lib/%.cpp,$(OUT)/$(1)/mclib/%.o,$$(wildcard /verif/lib/*.cpp)) $$(LIBH) $$(wildcard /verif/checks/*.h)
	@g++ $$(CXF) $$(SAN_$(1)) $$(INC) -I/verif/lib -I/verif/checks $$< $$(patsubst /verif/lib/%.cpp,$(OUT)/$(1)/mclib/%.o,$$(wildcard /verif/lib/*.cpp)) $(OUT)/$(1)/libdss.a $$(WRAPF) -lz -lm -o $$@
endef
$(eval $(call FLAVOUR,release))
$(eval $(call FLAVOUR,asan))
