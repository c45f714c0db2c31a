# Builds regpt.so from $(REPO)/src into $(OUT), with the Suave stand-in in place of libcuba.
# The list of sources and the compiler flags come from the project's own Makefile.
.DEFAULT_GOAL := vf
include $(REPO)/src/Makefile
VFOBJ := $(SRC:%.c=$(OUT)/%.o) $(OUT)/suave_standin.o
vf: $(OUT)/regpt.so
$(OUT)/%.o: $(REPO)/src/%.c
	$(CC) $(OPT) $(EXTRA) -w -I$(CUBAINC) -iquote $(REPO)/src -fPIC -c $< -o $@
$(OUT)/suave_standin.o: $(CUBAINC)/suave_standin.c
	$(CC) $(OPT) $(EXTRA) -w -I$(CUBAINC) -fPIC -c $< -o $@
$(OUT)/regpt.so: $(VFOBJ)
	$(CC) $(OPT) $(EXTRA) -shared $^ -lm -o $@
.PHONY: vf
.DELETE_ON_ERROR:
