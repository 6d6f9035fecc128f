# what compilers seldom write, in the small code model
	.intel_syntax noprefix
	.text
	.globl	mod_asm1
	.type	mod_asm1, @function
mod_asm1:
	push	rbx
	push	r12
	push	r13
	mov	ebx, edi
	# absolute addresses as immediates and displacements
	mov	eax, OFFSET words
	add	ebx, DWORD PTR [eax]
	movsxd	rcx, ebx
	and	ecx, 3
	add	ebx, DWORD PTR words[rcx*4]
	mov	rax, OFFSET words+4
	add	ebx, DWORD PTR [rax]
	movabs	rdx, OFFSET words+8
	add	ebx, DWORD PTR [rdx]
	# through the GOT, as operands of everything
	mov	r13, QWORD PTR asm_count@GOTPCREL[rip]
	add	DWORD PTR [r13], 3
	mov	r12, QWORD PTR words@GOTPCREL[rip]
	cmp	r12, QWORD PTR words@GOTPCREL[rip]
	jne	1f
	add	ebx, 1000
1:	cmp	QWORD PTR words@GOTPCREL[rip], r12
	jne	1f
	add	ebx, 2000
1:	test	QWORD PTR asm_count@GOTPCREL[rip], r13
	jz	1f
	add	ebx, 4000
1:	mov	rax, 0
	add	rax, QWORD PTR asm_count@GOTPCREL[rip]
	sub	rax, r13
	add	ebx, eax
	push	QWORD PTR strlen@GOTPCREL[rip]
	pop	rax
	lea	rdi, text[rip]
	call	rax
	add	ebx, eax
	lea	rdi, text[rip+4]
	call	QWORD PTR strlen@GOTPCREL[rip]
	add	ebx, eax
	mov	edi, ebx
	call	QWORD PTR helper@GOTPCREL[rip]
	mov	ebx, eax
	# a table of distances
	mov	eax, ebx
	and	eax, 1
	lea	rdx, jumps[rip]
	movsxd	rax, DWORD PTR [rdx+rax*4]
	add	rax, rdx
	jmp	rax
.Leven:	add	ebx, 10
	jmp	2f
.Lodd:	add	ebx, 20
2:	mov	rax, QWORD PTR pointers[rip+8]
	mov	edi, ebx
	call	rax
	add	eax, asm_count[rip]
	# fields that are followed by an immediate
	cmp	DWORD PTR asm_count[rip], 12345678
	je	3f
	mov	DWORD PTR scratch[rip+4], 0x11223344
	add	BYTE PTR scratch[rip+4], 1
	mov	WORD PTR scratch[rip+8], 0x55
	add	eax, DWORD PTR scratch[rip+4]
	movzx	ecx, WORD PTR scratch[rip+8]
	add	eax, ecx
3:	pop	r13
	pop	r12
	pop	rbx
	jmp	QWORD PTR tail@GOTPCREL[rip]
	.size	mod_asm1, .-mod_asm1
	.type	helper, @function
	.globl	helper
helper:	lea	eax, [rdi+rdi+1]
	ret
	.size	helper, .-helper
	.type	tail, @function
tail:	and	eax, 0xffffff
	ret
	.section .rodata
	.align 4
jumps:	.long	.Leven-jumps, .Lodd-jumps
	.globl	words
	.type	words, @object
	.size	words, 16
words:	.long	11, 22, 33, 44
text:	.asciz	"some text in here"
	.data
	.align 8
pointers: .quad	text+2, helper, words+12, .-8, pointers
	.globl	asm_count
	.type	asm_count, @object
	.size	asm_count, 4
asm_count: .long 100
	.bss
	.align 4
scratch: .zero 12
	.section .note.GNU-stack,"",@progbits
