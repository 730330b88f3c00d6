import json
P=[]
def add(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=False):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":[observe],"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

add("C01","Decrypting a fresh ciphertext returns exactly the encrypted message",
"Decrypting a freshly produced ciphertext with the secret key it was made under returns exactly the encrypted message, for scalar, polynomial and gadget ciphertexts, boolean and integer encodings, single values and batches, and at every security level and in every representation the library offers. The phase of every fresh ciphertext differs from the encoded message only by noise of the configured size, in every coefficient.",
["inputs","configurations"],"every secret key, every message of the message space (including its extremes), every coefficient position, every level, every encoding and every representation",
"the tests encrypt a few random boolean polynomials per level under one key and check the decoded bits only; they do not look at the phase, at every level, at integer encodings at their extremes or at each coefficient of gadget ciphertexts",
["include/tlwe.hpp","include/trlwe.hpp","include/trgsw.hpp","include/key.hpp","src/tlwe.cpp","src/trlwe.cpp","src/trgsw.cpp","src/key.cpp"],
[("scalar encryption and decryption","include/tlwe.hpp"),("polynomial encryption and decryption","include/trlwe.hpp"),("gadget encryption in plain, FFT, NTT and small-modulus NTT form","include/trgsw.hpp")],
"phase computed by an independent exact reference from the ciphertext and the key, and the library's own decryption result")

add("C02","Keys, masks and noise follow the configured distributions and are fresh",
"Every ciphertext is produced with its own fresh randomness: mask elements are uniform over the whole modulus, noise is centred with the standard deviation the caller or the level configures (never zero, never larger, in every coefficient of every ciphertext kind), and no mask, noise vector or key repeats across calls, threads or separately started processes. Secret keys have every element drawn, independently and uniformly, from the configured key alphabet at every level.",
["inputs","schedules","histories"],"every call, every thread, every key, every level, every noise parameter passed by the caller",
"tests only see that decryption works, which also holds with no noise, a constant mask, a repeated generator state or a low-entropy key; distribution properties need populations of samples and cross-thread comparison",
["include/utils.hpp","include/tlwe.hpp","include/trlwe.hpp","include/trgsw.hpp","src/key.cpp","thirdparties/randen/randen.h"],
[("thread-local random generator and noise samplers","include/utils.hpp"),("secret key generation","src/key.cpp"),("mask sampling in encryption","include/tlwe.hpp, include/trlwe.hpp")],
"mask words, recovered noise (phase minus message) and key elements of many ciphertexts made by several threads")

add("C03","Negacyclic polynomial multiplication is correct in every transform domain",
"Every polynomial multiplication the library offers (floating-point transform, 64-bit-prime transform, small-prime transform, Nussbaumer transform, naive) computes the product modulo X^N+1 and the ring modulus: exactly in the exact domains for operands within their documented range, and within the rounding error of double arithmetic in the floating-point domain. Forward and inverse transforms are mutual inverses, and multiply, multiply-accumulate and rescaled multiplication agree with the naive definition in every coefficient.",
["inputs"],"every pair of polynomials of the ring, including extreme, sparse, monomial and constant ones, at every ring size in use",
"tests multiply a handful of random small operands and compare with a tolerance; extreme coefficients, single monomials at each position, sign boundaries and the accumulate paths are not reached",
["include/mulfft.hpp","include/cuhe++.hpp","include/raintt.hpp","include/nussbaumer.hpp","thirdparties/spqlios/fft_processor_spqlios.cpp","thirdparties/spqlios/spqlios-fft-impl.cpp"],
[("floating-point transform","thirdparties/spqlios"),("polynomial multiplication front end","include/mulfft.hpp"),("64-bit prime NTT","include/cuhe++.hpp"),("small-prime signed Montgomery NTT","include/raintt.hpp"),("Nussbaumer transform","include/nussbaumer.hpp")],
"products and transform round trips compared with an exact 128-bit integer reference")

add("C04","Scalar modular arithmetic is exact for all operands and stays canonical",
"Addition, subtraction, multiplication, power, shift by any amount in range and inverse powers of two in the 64-bit prime field, and the signed and unsigned Montgomery reductions, modular addition and subtraction of the small-prime arithmetic, return the mathematically correct residue for every operand in their input range. Results stay in the representation range the next operation requires.",
["inputs"],"every operand pair and shift amount, in particular operands around 0, the modulus, 2^32 and 2^64 where carries and borrows occur",
"the tests sample uniformly random operands, which practically never hit the carry, borrow and wrap cases that occur with probability about 2^-32",
["include/INTorus.hpp","include/raintt.hpp","include/cuhe++.hpp"],
[("64-bit prime field element","include/INTorus.hpp"),("Montgomery and signed Montgomery reduction","include/raintt.hpp")],
"every result compared with 128-bit integer arithmetic on boundary-biased operands")

add("C05","Ring maps and coefficient extraction are exact for every exponent and index",
"Multiplying by a monomial, by a monomial minus one, applying a ring automorphism, extracting a coefficient of a polynomial ciphertext as a scalar ciphertext and embedding a scalar ciphertext back are exact maps for every polynomial, every exponent in [0, 2N], every odd automorphism index (taken modulo 2N, negative ones included) and every coefficient index. They satisfy the algebra of the ring: exponents add up, multiplying by X^N negates, automorphisms compose, and extraction after embedding at the same index is the identity.",
["inputs"],"every polynomial and ciphertext, every exponent including 0, N, 2N and their neighbours, every index including the first and last, and ring dimension including multi-component ciphertexts",
"tests use one random exponent and index 0 or a few; off-by-one errors at boundaries of the exponent and index ranges are not visited",
["include/utils.hpp","include/trlwe.hpp","include/nussbaumer.hpp"],
[("monomial multiplication and automorphism","include/utils.hpp"),("coefficient extraction and embedding","include/trlwe.hpp")],
"result compared coefficient by coefficient with an index-arithmetic reference; extracted ciphertext's phase against the polynomial's phase")

add("C06","Gadget decomposition recomposes with bounded error and balanced digits",
"Decomposing any polynomial yields, in every coefficient, digits in the balanced range [-Bg/2, Bg/2) whose weighted sum differs from the input by at most half of the least significant gadget weight, modulo the ring modulus. This holds for every coefficient value, at every level and parameter set, and for the transform-domain variants and gadget weights that use the decomposition.",
["inputs","configurations"],"every coefficient value (in particular those at the rounding and carry boundaries and at wrap-around) and every supported gadget parameter pair",
"no test looks at digits directly; a wrong carry or rounding constant only increases noise slightly, which the decoding margin of the tests hides",
["include/trgsw.hpp"],
[("digit decomposition and gadget weights","include/trgsw.hpp")],
"digits and their recomposition with the weights used in gadget encryption, over all residues of the rounding window")

add("C07","External product and CMUX select correctly with bounded noise in all engines",
"The product of a gadget encryption of a small polynomial with a polynomial ciphertext decrypts to the product of the plaintexts, and the homomorphic selector returns the first input when the selector encrypts one and the second when it encrypts zero, for all ciphertexts and selectors. The added noise stays within the bound given by the gadget parameters, and the floating-point, 64-bit-prime and small-prime engines agree up to that bound in every coefficient.",
["inputs","configurations","histories"],"every selector plaintext, every pair of ciphertexts (fresh, trivial, noisy, extreme), chains of products, every engine and level, separate and in-place outputs",
"tests check decoded bits with large margins on fresh random ciphertexts; a noise increase of several bits or an error in one engine confined to some coefficients or inputs passes",
["include/trgsw.hpp","include/detwfa.hpp","src/trgsw.cpp","src/detwfa.cpp"],
[("external products","include/trgsw.hpp"),("CMUX and rotation-CMUX","include/detwfa.hpp")],
"phase error of the result against the exact product or selected plaintext, against an explicit noise bound")

add("C08","Programmable bootstrapping evaluates the table at every phase with fresh noise",
"Bootstrapping a scalar ciphertext of any phase returns a ciphertext of the table entry at that phase (negated in the upper half turn), where the phase may be off only by the rounding and noise of the input, and the noise of the output depends only on the bootstrapping key and not on the input. It holds for every table, for tables given in the clear or encrypted, for several packed tables evaluated at once, and for every transform engine.",
["inputs","configurations"],"every input phase over the whole torus, every table, every number of packed tables, every engine and level pair",
"tests bootstrap two phases (plus and minus one eighth) through a constant table, so errors in table indexing, sign handling at the half turn, rounding, packed tables or output noise are not observable",
["include/gatebootstrapping.hpp","include/detwfa.hpp","include/keybundle.hpp","src/gatebootstrapping.cpp"],
[("blind rotation","include/gatebootstrapping.hpp"),("rotation-CMUX","include/detwfa.hpp"),("several tables at once","include/gatebootstrapping.hpp")],
"output phase against table entries in the admissible index window, and its noise against a key-determined bound")

add("C09","Key switching between scalar ciphertexts preserves the message",
"Key switching a scalar ciphertext from one key to another, in the plain, concatenated and shared-key-prefix variants and between all supported level pairs, yields a ciphertext under the target key whose phase equals the source phase (rescaled to the target modulus) up to the bounded noise and rounding of the switching key. Each ciphertext of a concatenated batch is treated exactly as if switched alone.",
["inputs","configurations"],"every source ciphertext, including masks at digit-carry and rounding boundaries, every message phase, every key pair and level pair",
"tests only check the sign of the decrypted result for a few random ciphertexts and level pairs, which tolerates errors of an eighth of the torus",
["include/keyswitch.hpp","src/keyswitch.cpp","include/cloudkey.hpp","src/cloudkey.cpp"],
[("scalar key switching and its variants","include/keyswitch.hpp"),("switching key generation","include/cloudkey.hpp, src/cloudkey.cpp")],
"phase under the target key versus phase under the source key, against an explicit noise bound, and bitwise equality of batch and single results")

add("C10","Ring key switching, packing and automorphism evaluation preserve plaintexts",
"Switching scalar ciphertexts into polynomial ciphertexts (direct, through a private function, packing many at once), evaluating a ring automorphism on an encrypted polynomial and annihilating coefficients each yield a polynomial ciphertext whose phase is, in every coefficient, the specified function of the input phases, up to the bounded noise of the evaluation key. Packing places the i-th input in its specified coefficient for any number of inputs.",
["inputs","configurations"],"every input ciphertext and phase, every number of packed inputs, every automorphism index, every output coefficient",
"tests check one coefficient or decoded bits of a few samples for one number of inputs; unused coefficients, odd batch sizes and noise growth are not observed",
["include/keyswitch.hpp","include/cloudkey.hpp","src/keyswitch.cpp","src/cloudkey.cpp"],
[("scalar to polynomial switching and private functional switching","include/keyswitch.hpp"),("automorphism evaluation, annihilation and packing","include/keyswitch.hpp"),("their keys","include/cloudkey.hpp")],
"phase of every output coefficient against the specified function of the input phases")

add("C11","Every gate computes its truth table at any depth of any circuit",
"Every homomorphic gate returns an encryption of its documented truth-table value for all inputs, in both orders of bootstrapping and key switching and for all result forms, and trivially encrypted constants, negation and copy may be mixed in anywhere. Outputs of bootstrapped gates carry noise independent of the inputs, so circuits of any depth and fan-out built from them evaluate to the same bits as the plaintext circuit.",
["programs","inputs","histories"],"every gate, every input combination, every circuit and depth, operands from any earlier gate, in-place and shared operands, several keys",
"tests run each gate on fresh random encryptions once; composed circuits, constants as inputs, in-place outputs, noisy operands and less common gates and result forms are not exercised",
["include/gate.hpp","src/gate.cpp","include/gatebootstrapping.hpp"],
[("gate definitions","include/gate.hpp, src/gate.cpp"),("gate bootstrapping","include/gatebootstrapping.hpp")],
"decrypted bit and phase error of every wire of random circuits against plaintext evaluation")

add("C12","Circuit bootstrapping yields a valid gadget ciphertext of the input bit",
"Circuit bootstrapping a scalar ciphertext yields a gadget ciphertext of the same bit (or of its complement, or both, in the inverting variants), valid in every row: using it as selector or multiplier gives the same plaintext as a freshly encrypted gadget ciphertext. All variants (plain and transform-domain results, shared-key-prefix switching, all supported target levels) agree, and the result's noise stays within the budget for further selections.",
["inputs","configurations"],"every input bit and admissible input noise, every variant and target level, every row and coefficient of the result",
"tests use the result in one multiplication with an eighth-torus margin, so rows with wrong scale, excessive noise or wrong complement stay hidden",
["include/circuitbootstrapping.hpp","src/circuitbootstrapping.cpp","include/keyswitch.hpp"],
[("circuit bootstrapping variants","include/circuitbootstrapping.hpp"),("private functional key switching","include/keyswitch.hpp")],
"phase of every row of the result against bit times gadget weight, and its effect as a selector")

add("C13","Encrypted memory behaves like an array under every access history",
"Reading an encrypted memory or lookup table at an encrypted address returns the stored word of exactly that address, and writing changes exactly the addressed word to the written value and leaves all others as they were. This holds for any sequence of reads and writes within the noise budget, for every address bit pattern and word content.",
["histories","inputs"],"every address, every memory content, every sequence of interleaved reads and writes with refresh",
"tests perform one read or one write at one random address and check one location; other addresses, non-addressed words and repeated accesses are unobserved",
["include/cmuxmem.hpp","include/detwfa.hpp","src/detwfa.cpp"],
[("tree selection, horizontal packing and write-back","include/cmuxmem.hpp"),("CMUX","include/detwfa.hpp")],
"decrypted content of all words after every operation against a plaintext array model")

add("C14","Homomorphic digit decomposition extracts every digit of the message",
"Decomposing an encrypted integer into base digits returns ciphertexts that together represent exactly the encrypted integer: every digit ciphertext decrypts to the corresponding digit of the message up to bounded noise. This holds for every message of the message space including those whose digits cause borrows.",
["inputs"],"every message, in particular digits 0, maximal and at half the base with carries through all positions",
"the test draws a few random messages, so carry chains and boundary digits are rarely reached",
["include/homdecomp.hpp","include/gatebootstrapping.hpp","include/keyswitch.hpp"],
[("digit extraction loop","include/homdecomp.hpp")],
"decrypted digit vector against the plaintext decomposition")

add("C15","Levelled multiplication of ciphertexts decrypts to the product",
"Multiplying two polynomial ciphertexts of integers and relinearising yields a ciphertext that decrypts, in every coefficient, to the product of the plaintext polynomials modulo the plaintext modulus. The three-component product before relinearisation has the same phase under the key and its square as the two-component result after it, up to relinearisation noise.",
["inputs"],"every pair of plaintext polynomials within the noise budget of the parameters",
"the test multiplies small random polynomials once and looks only at decoded values, not at noise or at extremes of the plaintext range",
["include/bfv++.hpp","src/bfv.cpp","include/mulfft.hpp","src/cloudkey.cpp"],
[("tensor product and relinearisation","include/bfv++.hpp"),("relinearisation key","include/cloudkey.hpp")],
"decoded product and phase of each coefficient against the exact reference")

add("C16","Serialised objects survive a save and load unchanged, and bad input is rejected",
"Saving any key, ciphertext, parameter description, evaluation key or message packet to a stream and loading it, in the same or another process, gives an object equal in every field and usable in the same way, and saving it again gives identical bytes. Loading truncated input reports an error instead of yielding a silently different object, and a loaded parameter description differs from the current one exactly when the parameters differ.",
["inputs","histories","crash_points"],"every serialisable type, every combination of optional parts present, every truncation point",
"the test round-trips one object and runs a single gate with it; most fields, optional parts, packets, truncation and byte determinism are not covered",
["include/key.hpp","include/cloudkey.hpp","include/lweParams.hpp","include/io-packet.hpp","include/INTorus.hpp"],
[("secret key serialisation","include/key.hpp"),("evaluation key serialisation","include/cloudkey.hpp"),("parameter description","include/lweParams.hpp"),("message packets","include/io-packet.hpp")],
"field-by-field comparison of saved and loaded objects, bytes of repeated saves, exceptions on truncated streams")

add("C17","Generated evaluation keys are correct encryptions of the right secrets",
"Every element of every generated evaluation key (bootstrapping, key switching, private functional switching, relinearisation, annihilation, in every representation) is an encryption under the target secret key of exactly the specified multiple of the specified source secret element, with fresh mask and the configured noise. Asking for one key produces that key and no other, a key that was generated is returned unchanged until regenerated, and distinct key kinds never overwrite one another.",
["inputs","configurations","histories"],"every secret key, every index of every key array, every order of generation requests",
"tests only use keys end to end; an element wrong for a rarely used digit, position or key value, or one without noise, shows as slightly larger noise or not at all",
["include/cloudkey.hpp","src/cloudkey.cpp","include/trgsw.hpp"],
[("key generation functions","include/cloudkey.hpp, src/cloudkey.cpp"),("evaluation key container","include/cloudkey.hpp")],
"phase of every key element under the target key against the expected plaintext, population of the noise, and contents of the container",
[("evaluation key container","optional shared keys, one slot per kind and level pair")])

add("C18","Concurrent evaluation is race-free and gives the sequential result",
"Any number of threads may encrypt, generate keys and evaluate gates, bootstrappings and key switches concurrently on shared keys and shared input ciphertexts, and parallel regions inside the library run with any thread count, without data races. Each evaluation returns bit for bit the ciphertext that the same evaluation returns when run alone, including on threads created, ended and created again.",
["schedules","histories"],"every interleaving of threads, every thread count, any mix of operations, threads starting and ending",
"tests call the library from one thread; races on shared buffers or tables need concurrent callers and rarely corrupt the checked bits",
["include/utils.hpp","include/tlwe.hpp","src/cloudkey.cpp","include/cloudkey.hpp","thirdparties/spqlios/fft_processor_spqlios.cpp","thirdparties/spqlios/fft_processor_spqlios.h"],
[("thread-local transform processors and generators","thirdparties/spqlios/fft_processor_spqlios.cpp, include/utils.hpp"),("parallel loops","include/tlwe.hpp, include/cloudkey.hpp, src/cloudkey.cpp")],
"a race detector over mixed concurrent workloads, and bitwise comparison with single-threaded results",
[("thread-local FFT processor","scratch buffers and tables of the floating-point transform, one per thread and ring size")])

add("C19","No operation has memory errors, undefined behaviour or uses uninitialised data",
"No public operation, on any valid input, reads or writes outside the objects it was given, uses freed or uninitialised memory, leaks, releases memory in a way that does not match its allocation, or executes undefined integer, floating-point, alignment or shift operations. This includes the hand-written vector code and thread start and end.",
["inputs","programs","histories"],"every operation of the public interface with valid inputs including boundary values, objects on stack and heap",
"tests are built without instrumentation and pass when an out-of-bounds access or an uninitialised read happens to hit harmless memory",
["include","src","thirdparties/spqlios"],
[("header templates","include"),("explicit instantiations","src"),("vectorised transforms and their buffers","thirdparties/spqlios")],
"address, undefined-behaviour and uninitialised-memory instrumentation of the library under a workload calling every operation")

add("C20","Evaluation is deterministic, leaves inputs intact and allows in-place results",
"Homomorphic evaluation is a pure function of its inputs: repeating an operation on the same ciphertexts and keys gives a bit-identical result whatever was computed before, whatever memory the result object held, and wherever the operands lie in memory, and no input or key is modified. Where result and operand have the same type, passing the same object for both gives the same result as passing distinct objects.",
["histories","inputs","programs"],"every operation, every preceding history of other operations, every prior content of the result object, every aliasing of result and operands of equal type",
"tests use each operation once with fresh, mostly zeroed, non-aliased objects and never compare repeated results bitwise",
["include/gate.hpp","src/gate.cpp","include/keyswitch.hpp","include/trgsw.hpp","include/detwfa.hpp","include/gatebootstrapping.hpp","include/circuitbootstrapping.hpp","include/cmuxmem.hpp","include/mulfft.hpp"],
[("gates","include/gate.hpp, src/gate.cpp"),("accumulating and writing results","include/keyswitch.hpp, include/trgsw.hpp, include/detwfa.hpp")],
"bitwise comparison of repeated, poisoned-output, relocated and aliased executions, checksums of inputs and keys")

add("C21","All shipped parameter sets and build options give a working, sound scheme",
"With every shipped parameter set and supported build option (alternative security levels, ternary and multi-component keys, key bundling, optimal decomposition), encryption round-trips, all gates evaluate their truth tables and bootstrapping output noise stays within the decoding margin. Parameters are mutually consistent: switching and gadget digit lengths fit in the word, message spacing leaves room for the noise, gate inputs keep a wide margin, and the dimension, modulus, key alphabet and noise of every level of the default (and 80-bit) set reach the documented 128 (80) bits of security.",
["configurations","inputs"],"every parameter set and build option, every gate and input combination under it",
"the test suite is built for the default parameters only; the other sets and options are never compiled or run",
["include/params.hpp","include/params","include/keybundle.hpp","include/mulfft.hpp","include/detwfa.hpp"],
[("parameter sets","include/params"),("key bundling","include/keybundle.hpp"),("ternary secret support","include/detwfa.hpp")],
"a conformance run of keys, encryption, gates and bootstrapping compiled for each configuration")

add("C22","The client, cloud and verifier programs answer correctly for every input",
"For any two input numbers the chain of example programs (client encrypts to files, cloud computes on them, verifier decrypts) reports the correct comparison, using only the files passed between them. The files given to the cloud contain no secret key material and a run never depends on leftovers of earlier runs.",
["inputs","histories"],"every pair of inputs of the supported width including equal and extreme ones, repeated runs in the same directory",
"the programs are built but no test runs them",
["tutorial","include/key.hpp","include/cloudkey.hpp","include/gate.hpp"],
[("client","tutorial/client.cpp"),("cloud","tutorial/cloud.cpp"),("verifier","tutorial/verify.cpp")],
"printed verdict against integer comparison; contents of the exchanged files")
with open('/verif/properties.jsonl','w') as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
ids=[p['id'] for p in P]
for p in P:
    assert len(p['title'])<=80,(p['id'],len(p['title']))
