//! The tape: every decision of a run is an integer read from here.
//! Search mode draws from a PRNG and records; replay mode reads a recorded tape (zeros after its
//! end). By convention 0 is the plainest choice (no fault, shortest, first).

pub struct Tape {
    rng: [u64; 2],
    replay: Option<Vec<u32>>,
    pub rec: Vec<u32>,
    pos: usize,
    /// write every choice to this file as it is drawn
    pub dump: Option<std::fs::File>,
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

impl Tape {
    pub fn from_seed(seed: u64) -> Tape {
        Tape { rng: [mix(seed), mix(seed ^ 0xdead_beef_cafe_f00d) | 1], replay: None, rec: Vec::new(), pos: 0, dump: None }
    }

    pub fn from_replay(t: Vec<u32>) -> Tape {
        Tape { rng: [1, 1], replay: Some(t), rec: Vec::new(), pos: 0, dump: None }
    }

    fn next(&mut self) -> u64 {
        // xoroshiro128+
        let [s0, mut s1] = self.rng;
        let r = s0.wrapping_add(s1);
        s1 ^= s0;
        self.rng = [s0.rotate_left(24) ^ s1 ^ (s1 << 16), s1.rotate_left(37)];
        r >> 11
    }

    /// A value in 0..n
    pub fn draw(&mut self, n: u32) -> u32 {
        if n <= 1 {
            return 0;
        }
        let v = match self.replay {
            None => (((self.next() & 0xffff_ffff) * n as u64) >> 32) as u32,
            Some(ref t) => {
                let v = t.get(self.pos).cloned().unwrap_or(0);
                if v >= n { n - 1 } else { v }
            }
        };
        self.pos += 1;
        self.rec.push(v);
        if let Some(ref mut f) = self.dump {
            use std::io::Write;
            let _ = f.write_all(&v.to_le_bytes());
        }
        v
    }
}
