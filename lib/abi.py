"""Mixed-compiler units: caller and callee parts of one program compiled separately by slimcc and gcc and linked."""
import os
from lib.diff import UnitCheck, PRELUDE
from lib import agg, cc

CHK_S = r'''
	.text
	.globl chk
	.type chk,@function
chk:
	mov %rsp, %rax
	and $15, %eax
	cmp $8, %eax
	je 1f
	orl $1, chk_bad(%rip)
1:	pushfq
	pop %rax
	test $0x400, %eax
	je 2f
	orl $2, chk_bad(%rip)
2:	sub $40, %rsp
	fnstenv (%rsp)
	movzwl 8(%rsp), %eax
	cmp $0xffff, %eax
	je 3f
	orl $4, chk_bad(%rip)
3:	movzwl (%rsp), %eax
	cmp $0x37f, %eax
	je 4f
	orl $8, chk_bad(%rip)
4:	fldenv (%rsp)
	stmxcsr (%rsp)
	movl (%rsp), %eax
	and $0xffc0, %eax
	cmp $0x1f80, %eax
	je 5f
	orl $16, chk_bad(%rip)
5:	add $40, %rsp
	movabs $0xdeadbeefcafe1235, %rax
	mov %rax, %rcx
	mov %rax, %rdx
	mov %rax, %rsi
	mov %rax, %rdi
	mov %rax, %r8
	mov %rax, %r9
	mov %rax, %r10
	mov %rax, %r11
	movq %rax, %xmm0
	punpcklqdq %xmm0, %xmm0
	.irp i,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15
	movaps %xmm0, %xmm\i
	.endr
	ret
	.globl docall
	.type docall,@function
docall:
	push %rbx
	push %rbp
	push %r12
	push %r13
	push %r14
	push %r15
	sub $8, %rsp
	mov %rsp, sv(%rip)
	movabs $0x1111111122222221, %rbx
	movabs $0x1111111122222222, %rbp
	movabs $0x1111111122222223, %r12
	movabs $0x1111111122222224, %r13
	movabs $0x1111111122222225, %r14
	movabs $0x1111111122222226, %r15
	call *%rdi
	xor %ecx, %ecx
	cmp sv(%rip), %rsp
	je 1f
	or $32, %ecx
	mov sv(%rip), %rsp
1:	movabs $0x1111111122222221, %rax
	cmp %rax, %rbx
	je 1f
	or $64, %ecx
1:	inc %rax
	cmp %rax, %rbp
	je 1f
	or $128, %ecx
1:	inc %rax
	cmp %rax, %r12
	je 1f
	or $256, %ecx
1:	inc %rax
	cmp %rax, %r13
	je 1f
	or $512, %ecx
1:	inc %rax
	cmp %rax, %r14
	je 1f
	or $1024, %ecx
1:	inc %rax
	cmp %rax, %r15
	je 1f
	or $2048, %ecx
1:	or %ecx, chk_bad(%rip)
	add $8, %rsp
	pop %r15
	pop %r14
	pop %r13
	pop %r12
	pop %rbp
	pop %rbx
	ret
	.data
	.globl chk_bad
	.type chk_bad,@object
	.size chk_bad,4
	.balign 8
chk_bad: .long 0, 0
sv:	.quad 0
	.section .note.GNU-stack,"",@progbits
'''

HEAD = r'''
#ifndef PART
#define PART 3
#endif
void chk(void); void docall(void (*)(void)); extern int chk_bad;
'''


class AbiCheck(UnitCheck):
    prelude = PRELUDE + agg.PRELUDE + HEAD
    slimcc_flags = ["-std=c17", "-w"]
    gcc_flags = ["-w", "-O0", "-fwrapv", "-fno-strict-aliasing", "-fno-builtin", "-std=gnu17"]
    clang_flags = gcc_flags
    units_per_batch = 14
    # who: which part slimcc compiles
    flagsets = [["%s" % m, *f] for f in ([], ["-O0"], ["-fPIC"], ["-fno-pic"]) for m in ("@1", "@2", "@3")]

    def setup(self, ctx):
        cc.write(os.path.join(ctx.base, "chk.s"), CHK_S)
        r = cc.run(["gcc", "-c", "-o", "chk.o", "chk.s"], cwd=ctx.base)
        assert r.rc == 0, r

    def program(self, units):
        parts = [self.prelude]
        for _, u in units:
            parts.append(u.code)
            parts.append("#if PART & 1\n%s\n#endif\n#if PART & 2\n%s\n#endif" % (u.callee, u.caller))
        parts.append("#if PART & 2\nint main(void) {")
        for uid, u in units:
            parts.append('printf("@@%d\\n"); %s printf("chk %%d\\n", chk_bad); chk_bad = 0; fflush(0);' % (uid, u.call))
        parts.append('printf("@@end\\n"); return 0; }\n#endif\n')
        return "\n".join(parts)

    def slimcc_build(self, ctx, d, text, flags, name="s"):
        cc.write(os.path.join(d, name + ".c"), text)
        who, fl = int(flags[0][1:]), flags[1:]
        objs = []
        nopic = "-fno-pic" in fl
        for part in (1, 2):
            o = "%s%d.o" % (name, part)
            if who & part:
                r = cc.run([ctx.builds["default"], *self.slimcc_flags, *fl, "-DPART=%d" % part, "-c", "-o", o, name + ".c"], cwd=d, timeout=60)
            else:
                r = cc.run(["gcc", *self.gcc_flags, "-DPART=%d" % part, *(["-fno-pic"] if nopic else []), "-c", "-o", o, name + ".c"], cwd=d, timeout=60)
            if r.rc:
                return r
            objs.append(o)
        return cc.run(["gcc", *(["-no-pie"] if nopic else []), "-o", name + ".exe", *objs, os.path.join(ctx.base, "chk.o"), *self.link_flags],
                      cwd=d, timeout=60)

    def ref_build(self, ctx, d, text, compiler="gcc", extra=(), name="g"):
        cc.write(os.path.join(d, name + ".c"), text)
        fl = self.gcc_flags if compiler == "gcc" else self.clang_flags
        return cc.run([compiler, *fl, *extra, "-o", name + ".exe", name + ".c", os.path.join(ctx.base, "chk.o"), *self.link_flags], cwd=d, timeout=120)

    def trusted(self, ctx, d, text, ref):
        """Where gcc and clang cannot call each other the ABI is in dispute and nothing is decided."""
        from lib.diff import split_units
        for k, (a, b) in enumerate((("gcc", "clang"), ("clang", "gcc"))):
            objs = []
            for part, c in ((1, a), (2, b)):
                cc.write(os.path.join(d, "x.c"), text)
                o = "x%d%d.o" % (k, part)
                if cc.run([c, *self.gcc_flags, "-DPART=%d" % part, "-c", "-o", o, "x.c"], cwd=d, timeout=60).rc:
                    return False
                objs.append(o)
            if cc.run(["gcc", "-o", "x.exe", *objs, os.path.join(ctx.base, "chk.o"), *self.link_flags], cwd=d, timeout=60).rc:
                return False
            r = self.run_exe(d, "x")
            if r.rc or split_units(r.out) != ref:
                return False
        return UnitCheck.trusted(self, ctx, d, text, ref)
