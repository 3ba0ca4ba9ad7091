//! The table of properties.
use crate::pa::*;
use crate::pb::*;
use crate::pc::*;
use crate::pd::*;
use crate::pe::*;
use crate::pf::*;
use crate::rng::{hash_str, mix, Rng};
use crate::scen::*;

pub struct Prop { pub id: &'static str, pub gen: fn(&mut Rng, &mut Ctx) -> Scen, pub judge: fn(&Scen, &mut Ctx) -> Verdict, /** scenarios per tier */ pub quick: u64, pub thorough: u64, pub rule: &'static str }
pub const PROPS: &[Prop] = &[
    Prop { id: "C01", gen: g01, judge: j01, quick: 24_000, thorough: 400_000, rule: "a generated project is assembled under generated faults; non-trivial: at least one fault took effect, or the project was healthy and its image was compared" },
    Prop { id: "C02", gen: g02, judge: j02, quick: 24_000, thorough: 400_000, rule: "a generated project is assembled with an error planted in a source or a fault on the input side; non-trivial: the run failed and its output path was compared with what it was" },
    Prop { id: "C03", gen: g03, judge: j03, quick: 16_000, thorough: 300_000, rule: "a command is run with its output failing, filling up or taking pieces; non-trivial: a fault on the output side took effect" },
    Prop { id: "C04", gen: g04, judge: j04, quick: 12_000, thorough: 200_000, rule: "a command is run two to four times with different random numbers, clock, environment, directory, spelling or old output; non-trivial: the runs succeeded and were compared" },
    Prop { id: "C05", gen: g05, judge: j05, quick: 14_000, thorough: 200_000, rule: "a project with macros is assembled under a good, failing or fragmented source of random numbers; non-trivial: a run with more than one expansion succeeded and its image was compared" },
    Prop { id: "C06", gen: g06, judge: j06, quick: 14_000, thorough: 200_000, rule: "source files are replaced at chosen system calls of an assemble run; non-trivial: a replacement took place in a run that succeeded and its image was found among those of the version choices" },
    Prop { id: "C07", gen: g07, judge: j07, quick: 60_000, thorough: 400_000, rule: "a project with one planted error at a known place (196 kinds), or with lines that were changed at random, is assembled while its files are replaced or read in pieces; non-trivial: the diagnostic was compared with the place in the version that was read" },
    Prop { id: "C08", gen: g08, judge: j08, quick: 30_000, thorough: 400_000, rule: "a vmi run at a chosen instant near a boundary of local time, in a chosen time zone, with a moving or stepped clock; non-trivial: the time stamp was compared with the readings of the clock" },
    Prop { id: "C09", gen: g09, judge: j09, quick: 60_000, thorough: 1_000_000, rule: "a vmi run with faults on either side; non-trivial: it succeeded and its output was compared with the independent encoder" },
    Prop { id: "C10", gen: g10, judge: j10, quick: 40_000, thorough: 600_000, rule: "a run of a command that succeeds, fails or is killed; non-trivial: the whole file system was compared before and after" },
    Prop { id: "C11", gen: g11, judge: j11, quick: 14_000, thorough: 300_000, rule: "one to three earlier runs with kills, power losses, faults and edits, then a final run; non-trivial: the final run was compared with the run in a fresh directory" },
    Prop { id: "C12", gen: g12, judge: j12, quick: 9_000, thorough: 200_000, rule: "two to six library assemblies in one process, in sequence or on threads under a seeded scheduler; non-trivial: every result was compared with that of the assembly alone" },
    Prop { id: "C13", gen: g13, judge: j13, quick: 16_000, thorough: 200_000, rule: "a run under a persistent fault; non-trivial: a fault took effect" },
    Prop { id: "C14", gen: g14, judge: j14, quick: 24_000, thorough: 400_000, rule: "a project with files of the same names elsewhere, files moved to the working directory or taken away, and errors while files are looked up; non-trivial: the image was compared, or a missing file was refused" },
    Prop { id: "C15", gen: g15, judge: j15, quick: 30_000, thorough: 400_000, rule: "a run with a failing standard error against the same run with a working one; non-trivial: a write to standard error was refused or cut" },
    Prop { id: "C16", gen: g16, judge: j16, quick: 20_000, thorough: 300_000, rule: "a conversion of images that are delivered in pieces, cut short before or while they are read, or cannot be read to their end; non-trivial: the output was compared with the model of the conversion, or a broken image was refused" },
    Prop { id: "C17", gen: g17, judge: j17, quick: 30_000, thorough: 400_000, rule: "a project is expanded under faults, the listing saved and assembled; non-trivial: the image of the listing was compared with that of the project, or part of a listing was lost" },
    Prop { id: "C18", gen: g18, judge: j18, quick: 8_000, thorough: 300_000, rule: "a binary is disassembled under faults on either side; non-trivial: the listing was compared with the file byte by byte, or a failure was reported" },
    Prop { id: "C19", gen: g19, judge: j19, quick: 20_000, thorough: 400_000, rule: "a binary is disassembled under faults on either side, from any hash seed; non-trivial: the run succeeded and what it lists as code was compared with what can be reached" },
    Prop { id: "C20", gen: g20, judge: j20, quick: 20_000, thorough: 400_000, rule: "two or three runs at the same time on one file system, under a seeded scheduler that may switch at every system call; non-trivial: the scheduler switched between them and every result was compared with that of the run alone" },
    Prop { id: "C21", gen: g21, judge: j21, quick: 20_000, thorough: 300_000, rule: "a run on good inputs where there is little but them; non-trivial: the run ended with the right output" },
    Prop { id: "C22", gen: g22, judge: j22, quick: 30_000, thorough: 400_000, rule: "a run of a command on good or bad inputs with its streams on a terminal or not; non-trivial: what it wrote on a terminal was compared with what it wrote elsewhere" },
    Prop { id: "C23", gen: g23, judge: j23, quick: 20_000, thorough: 400_000, rule: "a run of a command on bad inputs (one to six errors of any kind) is repeated with other random numbers, hash seeds, clock, environment and old output; non-trivial: the runs failed and what they said was compared" },
    Prop { id: "C24", gen: g24, judge: j24, quick: 30_000, thorough: 400_000, rule: "a command writes to an output path that is a link, has other names, rights or is a device, under faults; non-trivial: the run succeeded and the whole file system was compared with what it should be" },
    Prop { id: "C25", gen: g25, judge: j25, quick: 12_000, thorough: 300_000, rule: "two to twelve command lines are run by the library in one process, in sequence with edits and changes of directory in between, or on threads under a seeded scheduler; non-trivial: a command ended and all it wrote was compared with the same commands in processes of their own" },
    Prop { id: "C26", gen: g26, judge: j26, quick: 20_000, thorough: 300_000, rule: "a run some or all of whose inputs are pipes that can be read once, in pieces, without size or position; non-trivial: it was compared with the same run on regular files" },
];
pub fn find(id: &str) -> Option<&'static Prop> { PROPS.iter().find(|p| p.id == id) }
pub fn make(p: &Prop, seed: u64, idx: u64, c: &mut Ctx) -> Scen {
    let mut r = Rng::new(mix(seed ^ hash_str(p.id)) ^ mix(idx));
    c.start();
    let mut s = (p.gen)(&mut r, c);
    s.prop = p.id.into(); s.seed = seed; s.idx = idx;
    c.start();
    s
}
pub fn judge(s: &Scen, c: &mut Ctx) -> Verdict { c.capped = false; match find(&s.prop) { Some(p) => match (p.judge)(s, c) { Verdict::Violation { .. } if c.capped && s.prop != "C13" => Verdict::Skip("a run was not ended".into()), v => v }, None => Verdict::Skip("unknown property".into()) } }
