"""Texts of MANIFEST.json."""
JT = "TLA+ specification judged by TLC on events recorded from the real code"
MT = "TLA+ model checked exhaustively by TLC, its behaviours replayed into the real code and the recorded events judged by TLC"
NOTES = {
 "C01": (JT, "Every generated tree is packed by the real library and read back; the TLA+ model decides equality of the trees. Bounded by the generated families (all insertion orders of small directories, every encodable character, boundary sizes, > 4 GiB images)."),
 "C02": (JT, "The image bytes are parsed by an independent parser and the TLA+ layout model decides soundness of every region and entry, on the generated families."),
 "C03": (JT, "Ordering and balance of every table and the answer of every lookup are decided by the TLA+ model, on the generated families."),
 "C04": (JT, "Images of every shape the format allows come from an independent writer; the TLA+ model decides what each listing method must report. Bounded by the generated families."),
 "C05": (MT, "TLC enumerates all pointer graphs among three entries and among three directories; each becomes an image for every reader. Larger graphs and damaged bytes are sampled."),
 "C06": (MT, "TLC enumerates every combination of descriptor states at the four partition offsets; each becomes an image given to library, tool and daemon. Every single magic byte is damaged in turn."),
 "C07": (JT, "Ranges at every boundary of files at random positions, through every device and at every truncation point near a file's data; the TLA+ model decides the length and outcome."),
 "C08": (JT, "Independent images repacked through library (all copiers) and tool, chained; the TLA+ model compares trees and layout."),
 "C09": (JT, "Checksums of many layouts of related trees; the TLA+ model defines the canonical stream and decides which checksums must be equal or differ."),
 "C10": (JT, "Containers are decompressed by an independent decoder and compared with the packed image; every read command is compared on both."),
 "C11": (MT, "Rule semantics are defined in TLA+; TLC judges the overlay, the dry run and the built image for enumerated and random trees and rule lists."),
 "C12": (MT, "Every single failing operation and every crash point of many packing runs (device, source and system call level); TLC decides whether the outcome may be reported as success or accepted as a volume."),
 "C13": (MT, "A TLA+ model of the rewrite protocol over lists with clashing names is checked with crashes at every step and its scenarios run; the real tool is killed or failed at every file operation and the surviving files judged by TLC."),
 "C14": (JT, "Spellings of source and output are enumerated over real directory layouts with symlinks; TLC decides refusal and untouchedness."),
 "C15": (JT, "Independent images extracted by every command, the resulting files compared by the TLA+ model; truncated images included."),
 "C16": (JT, "Hostile names at every level, extracted by an unprivileged process; TLC decides what may exist afterwards."),
 "C17": (MT, "TLC enumerates request histories on a small image, which are replayed against the real daemon over the FUSE protocol; random longer sessions on random images are judged by the same specification."),
 "C18": (MT, "As C17, for the data returned by read requests, with offsets at every boundary and truncated images."),
 "C19": (JT, "Representability is defined in TLA+ and compared with the packer's answer on boundary families."),
 "C20": (MT, "Device semantics are a TLA+ model whose operation histories are replayed into every block device in both builds; images packed to every device are compared."),
 "C21": (JT, "The printed listings, totals, hashes and offsets and the progress events are parsed and compared with the TLA+ image model."),
 "C22": (MT, "TLC checks a step-by-step reader for every set of bad sectors of a small image and prints the sets, which are replayed into the library on images with the same objects; single and multiple bad sectors, every end of the image and every failing read of random images go through library, tool and daemon, judged by the same specification."),
}
NA = {}
