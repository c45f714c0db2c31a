# The driver with the sources of $(REPO) and one sanitizer: $(OUT)/asan, $(OUT)/msan, $(OUT)/tsan
.DEFAULT_GOAL := vf
include $(REPO)/src/Makefile
HERE := $(VERIF)/vf/san
INC = -I$(VERIF)/vf/cuba -iquote $(REPO)/src
ASAN = gcc -g -O1 -w -fno-omit-frame-pointer -fopenmp -fsanitize=address,undefined -fno-sanitize-recover=undefined $(DEFINEOPTIONS) -DCOUNT_ALLOCATED
MSAN = clang -g -O1 -w -fsanitize=memory -fno-omit-frame-pointer -I$(HERE)/noomp $(DEFINEOPTIONS)
TSAN = gcc -g -O1 -w -fsanitize=thread -fopenmp $(DEFINEOPTIONS)
OA := $(SRC:%.c=$(OUT)/a/%.o) $(OUT)/a/suave_standin.o $(OUT)/a/driver.o
OM := $(SRC:%.c=$(OUT)/m/%.o) $(OUT)/m/suave_standin.o $(OUT)/m/driver.o
OT := $(SRC:%.c=$(OUT)/t/%.o) $(OUT)/t/suave_standin.o $(OUT)/t/driver.o $(OUT)/t/gomp.o
vf: $(OUT)/asan $(OUT)/msan $(OUT)/tsan
$(OUT)/asan: $(OA)
	$(ASAN) $^ -lm -o $@
$(OUT)/msan: $(OM)
	$(MSAN) $^ -lm -o $@
# linked without -fopenmp: gomp.o takes the place of libgomp
$(OUT)/tsan: $(OT)
	gcc -fsanitize=thread $^ -lpthread -lm -o $@
$(OUT)/a/%.o: $(REPO)/src/%.c
	@mkdir -p $(OUT)/a
	$(ASAN) $(INC) -c $< -o $@
$(OUT)/m/%.o: $(REPO)/src/%.c
	@mkdir -p $(OUT)/m
	$(MSAN) $(INC) -c $< -o $@
$(OUT)/t/%.o: $(REPO)/src/%.c
	@mkdir -p $(OUT)/t
	$(TSAN) $(INC) -c $< -o $@
$(OUT)/a/%.o: $(HERE)/%.c
	@mkdir -p $(OUT)/a
	$(ASAN) $(INC) -c $< -o $@
$(OUT)/m/%.o: $(HERE)/%.c
	@mkdir -p $(OUT)/m
	$(MSAN) $(INC) -c $< -o $@
$(OUT)/t/%.o: $(HERE)/%.c
	@mkdir -p $(OUT)/t
	$(TSAN) $(INC) -c $< -o $@
$(OUT)/a/suave_standin.o: $(VERIF)/vf/cuba/suave_standin.c
	@mkdir -p $(OUT)/a
	$(ASAN) $(INC) -c $< -o $@
$(OUT)/m/suave_standin.o: $(VERIF)/vf/cuba/suave_standin.c
	@mkdir -p $(OUT)/m
	$(MSAN) $(INC) -c $< -o $@
$(OUT)/t/suave_standin.o: $(VERIF)/vf/cuba/suave_standin.c
	@mkdir -p $(OUT)/t
	$(TSAN) $(INC) -c $< -o $@
.PHONY: vf
.DELETE_ON_ERROR:
