import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M='''C07 x86 element-wise copy_from/copy_to index elements, not native vectors
C13 x86 simd copies convert element-wise and stay within size() elements
C12 x86 constructors from native vector arrays and spans
C12 x86 simd_mask generator constructor
C09 x86 blend compiles (extension namespace lookup)
C04 x86 simd_mask operator&& starts from an all-true mask
C05 constrain x86 none_of to x86 masks
C05 x86 mask index reductions ignore padding lanes
C23 x86 constant-evaluated element access indexes within the native vector
C02 emulated 64-bit arithmetic right shift carries bits between halves
C02 x86 operator>> shifts right and propagates the sign of signed elements
C23 constant-evaluated x86 constant shifts convert through a buffer of the same size
C02 generic lsr accepts unsigned elements and always shifts in zeros
C10 generic reduce reads every element of the lower half
C10 x86 reduce falls back to the generic reduction for other operations
C10 x86 horizontal min/max and 128-bit fallback of integral reductions
C10 x86 reduce_min and reduce_max of infinities
C10 x86 reduce keeps the sign of a negative zero sum
C11 x86 shuffle result size and padding indices within the source
C10 maskblend of 64-bit elements returns the unmodified argument
C10 256-bit maskblend without AVX2 replaces the whole upper half when n is in the lower half
C10 AVX2 horizontal reductions of 8 and 16 bit elements
C01 generic increment and decrement use a scalar of the element type
C16 generic abs returns a vector and accepts unsigned elements
C16 generic fmin with a scalar does not index the scalar
C19 generic sincos passes elements to the builtin
C17 generic rint and lrint keep results in buffers of the result type
C16 x86 fmax and fmin test elements of the first operand for NaN
C23 constant-evaluated x86 lerp
C14 fnmsub without FMA keeps the sign of zero results
C12 256-bit set of 64-bit integers keeps all bits
C06 256-bit integral min and max without AVX2
C16 x86 integral abs propagates the sign bit and leaves unsigned elements unchanged
C02 vector shift-assignment operators shift in their own direction
C18 x86 isnormal is false for NaN
C18 x86 islessgreater is false for equal elements
C18 x86 signbit produces a complete mask
C17 trunc_sse2 compares the lower half of 64-bit exponents
C17 SSE2 rounding keeps signed zeros, large and non-finite elements and rounds halves away from zero
C17 AVX round of float elements adds the rounding offset
C17 SSE2 rint of double elements keeps large elements
C17 x86 conversions of vectors to integers handle every element and round halves away from zero
C05 AVX2 movemask of 8 and 16 bit elements is not sign-extended
C04 generic simd_mask operator~ negates elements
C06 generic minmax does not refer to destroyed temporaries
C22 headers compile without inline extensions
C16 remquo with a quotient taken by reference can be called
C16 x86 fmax and fmin select the first operand when the second is NaN
C15 SSE4.1 conversion of 64-bit integers to double uses the high half
C15 x86 modf selects the integral part of every class of inputs
C15 x86 frexp exponent of subnormal values
C15 x86 scalbn overflow of the exponent sum
C15 x86 scalbn and scalbln match every element with its own exponent
C15 x86 scalbln with a scalar exponent does not truncate it
C23 constant-evaluated x86 copysign uses the sign operand
C17 SSE2 ceil and floor keep the sign of zero under any rounding mode
C17 SSE2 rint and nearbyint respect the current rounding mode
C17 x86 round does not depend on the current rounding mode
C20 sincos returns the cosine through std::pair instead of a clobbered register
C20 tan polynomial evaluates its coefficients in descending order
C20 sin, cos and tan reduce their argument with enough precision
C20 log2 of double uses the table offset its table was made for
C20 log10 scales subnormal arguments
C19 logarithms of zero are negative infinity
C20 logarithms normalize subnormal arguments
C20 log1p applies its correction term to every argument and keeps signed zeroes
C20 hypot of two tiny doubles does not add them
C22 common_t of scalar tags is scalar
C06 minmax keeps both result buffers aligned
C23 x86 vectors and their integer operators can be used in constant expressions
C23 generic shuffle can be used in constant expressions
C24 poles of logarithms keep their sign when rounding downward
C22 compatible and native of types without an architecture-specific backend are scalar
C14 lerp propagates NaN arguments on ABIs without vector kernels
C17 rounding to 64-bit integers compiles with AVX-512
C20 truncation to 64-bit integers truncates with AVX-512
C16 fdim returns positive zero unless the first argument is greater
C24 conversion of zero to double is positive when rounding downward
C03 64-bit integer comparison needs SSE4.2 rather than SSE4.1
C25 x86 cpuid selects subleaf 0 of leaf 7
C25 x86 cpuid reports AVX extensions only with AVX state enabled
C18 x86 quiet comparisons do not raise invalid for quiet NaN elements
C10 x86 64-bit reductions compile with clang
C27 promoted scalar arguments of math functions are converted explicitly
'''
d={l.split(' ',1)[1]:l.split(' ',1)[0] for l in M.splitlines()}
json.dump(d,open(os.path.join(V,'tools','fixmap.json'),'w'),indent=1)
