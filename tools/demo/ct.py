HEAD = '''
use crylib::big_int::UBigInt;
use std::process::Command;
#[inline(never)]
#[no_mangle]
pub extern "C" fn ct_probe(a: &[u64; 4], b: &[u64; 4]) -> u64 {
    %s
}
// executed instructions of ct_probe for one pair of operands, counted by valgrind
fn count(n: usize) -> u64 {
    let o = Command::new("valgrind")
        .args(["--tool=callgrind", "--callgrind-out-file=/dev/null", "--toggle-collect=ct_probe"])
        .arg(std::env::current_exe().unwrap()).arg(n.to_string())
        .output().expect("valgrind");
    let e = String::from_utf8_lossy(&o.stderr).to_string();
    let l = e.lines().find(|l| l.contains("Collected")).unwrap_or_else(|| panic!("{}", e));
    l.rsplit(' ').next().unwrap().parse().unwrap()
}
fn main() {
    let c: [([u64; 4], [u64; 4]); %d] = [%s];
    if let Some(n) = std::env::args().nth(1) {
        let (a, b) = &c[n.parse::<usize>().unwrap()];
        std::hint::black_box(ct_probe(std::hint::black_box(a), std::hint::black_box(b)));
        return;
    }
    let n: Vec<u64> = (0..c.len()).map(count).collect();
    assert!(n[0] > 0 && n.iter().all(|x| *x == n[0]), "instructions per operand: {:?}", n);
}
'''
def demo(body, cases):
    return HEAD % (body, len(cases), ', '.join(f'({a}, {b})' for a, b in cases))
