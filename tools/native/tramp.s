# uint64_t tramp(void *fn, uint64_t *args, uint64_t *clob): calls fn with recognisable callee-saved registers
        .intel_syntax noprefix
        .text
        .globl tramp
tramp:
        push rbx
        push rbp
        push r12
        push r13
        push r14
        push r15
        push rdx
        mov rax, rdi
        mov r10, rsi
        mov rdi, [r10]
        mov rsi, [r10+8]
        mov rdx, [r10+16]
        mov rcx, [r10+24]
        mov r8, [r10+32]
        mov r9, [r10+40]
        mov rbx, 0x1111111111111111
        mov rbp, 0x2222222222222222
        mov r12, 0x3333333333333333
        mov r13, 0x4444444444444444
        mov r14, 0x5555555555555555
        mov r15, 0x6666666666666666
        mov [rip+savesp], rsp
        call rax
        xor r11d, r11d
        cmp rsp, [rip+savesp]
        je 0f
        or r11, 64
        mov rsp, [rip+savesp]
0:      mov r10, 0x1111111111111111
        cmp rbx, r10
        je 1f
        or r11, 1
1:      mov r10, 0x2222222222222222
        cmp rbp, r10
        je 1f
        or r11, 2
1:      mov r10, 0x3333333333333333
        cmp r12, r10
        je 1f
        or r11, 4
1:      mov r10, 0x4444444444444444
        cmp r13, r10
        je 1f
        or r11, 8
1:      mov r10, 0x5555555555555555
        cmp r14, r10
        je 1f
        or r11, 16
1:      mov r10, 0x6666666666666666
        cmp r15, r10
        je 1f
        or r11, 32
1:      pushfq
        pop r10
        bt r10, 10
        jnc 1f
        cld
        or r11, 128
1:      pop rdx
        mov [rdx], r11
        pop r15
        pop r14
        pop r13
        pop r12
        pop rbp
        pop rbx
        cld
        ret
        .bss
savesp: .quad 0
        .section .note.GNU-stack,"",@progbits
