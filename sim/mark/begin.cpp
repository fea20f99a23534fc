extern "C" void hsim_text_begin() { asm volatile("nop"); }
