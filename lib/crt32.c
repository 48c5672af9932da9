/* Entry point for 32-bit x86 programs linked against the 32-bit C library at run time (its development files, with
 * the usual crt1.o, are not installed here). */
int main(int, char **, char **);
int __libc_start_main(int (*)(int, char **, char **), int, char **, void (*)(void), void (*)(void), void (*)(void), void *);
__attribute__((used)) void start_c(int *sp) { __libc_start_main(main, sp[0], (char **)(sp + 1), 0, 0, 0, 0); }
__asm__(".globl _start\n_start: xor %ebp,%ebp\n mov %esp,%eax\n and $-16,%esp\n sub $12,%esp\n push %eax\n call start_c\n hlt\n");
