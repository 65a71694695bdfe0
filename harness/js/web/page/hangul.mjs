// A stand-in for hangul-js: disassembling, as documented there.
const lead = [...'ㄱㄲㄴㄷㄸㄹㅁㅂㅃㅅㅆㅇㅈㅉㅊㅋㅌㅍㅎ']
const vowel = 'ㅏ ㅐ ㅑ ㅒ ㅓ ㅔ ㅕ ㅖ ㅗ ㅗㅏ ㅗㅐ ㅗㅣ ㅛ ㅜ ㅜㅓ ㅜㅔ ㅜㅣ ㅠ ㅡ ㅡㅣ ㅣ'.split(' ')
const tail = ' ㄱ ㄲ ㄱㅅ ㄴ ㄴㅈ ㄴㅎ ㄷ ㄹ ㄹㄱ ㄹㅁ ㄹㅂ ㄹㅅ ㄹㅌ ㄹㅍ ㄹㅎ ㅁ ㅂ ㅂㅅ ㅅ ㅆ ㅇ ㅈ ㅊ ㅋ ㅌ ㅍ ㅎ'.split(' ')
const compound = { ㄳ: 'ㄱㅅ', ㄵ: 'ㄴㅈ', ㄶ: 'ㄴㅎ', ㄺ: 'ㄹㄱ', ㄻ: 'ㄹㅁ', ㄼ: 'ㄹㅂ', ㄽ: 'ㄹㅅ', ㄾ: 'ㄹㅌ', ㄿ: 'ㄹㅍ', ㅀ: 'ㄹㅎ', ㅄ: 'ㅂㅅ', ㅘ: 'ㅗㅏ', ㅙ: 'ㅗㅐ', ㅚ: 'ㅗㅣ', ㅝ: 'ㅜㅓ', ㅞ: 'ㅜㅔ', ㅟ: 'ㅜㅣ', ㅢ: 'ㅡㅣ' }
export function disassemble(string, grouped) {
  const groups = [...(typeof string === 'object' ? string.join('') : string)].map((ch) => {
    const n = ch.codePointAt(0) - 0xac00
    if (n >= 0 && n < 11172) return [lead[Math.floor(n / 588)], ...vowel[Math.floor(n / 28) % 21], ...tail[n % 28]]
    return compound[ch] ? [...compound[ch]] : [ch]
  })
  return grouped ? groups : groups.flat()
}
export const d = disassemble
export const disassembleToString = (s) => disassemble(s).join('')
export const ds = disassembleToString
export const isHangul = (c) => /^[가-힣ㄱ-ㅎㅏ-ㅣ]$/.test(c)
export const isComplete = (c) => /^[가-힣]$/.test(c)
export default { d, disassemble, ds, disassembleToString, isHangul, isComplete }
