extern "C" void hsim_text_end() { asm volatile("nop"); }
