//! openfile mmap|read PATH: writes length and contents of the buffer to stdout; exit 3 if opening reports an error.
use rapiddlt::dltbuffer::DltBuffer;
use std::io::Write;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let b = match a[1].as_str() { "mmap" => DltBuffer::mmap_file(&a[2]), _ => DltBuffer::read_file(&a[2]) };
    match b {
        Err(_) => std::process::exit(3),
        Ok(b) => {
            let mut o = std::io::stdout().lock();
            o.write_all(&(b.len() as u64).to_le_bytes()).unwrap();
            o.write_all(b.as_slice()).unwrap();
            o.flush().unwrap();
        }
    }
}
