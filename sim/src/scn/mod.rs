use crate::runner::Prop;
mod buffer;
mod limit;
mod balance;
mod cache;
mod discover;
mod server;
mod hedge;
mod load;
mod queue;
mod retry;
mod single;
pub mod span;
mod stack;
mod system;
mod template;
mod threads;
mod util;

pub fn props() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(buffer::props());
    v.extend(limit::props());
    v.extend(queue::props());
    v.extend(single::props());
    v.extend(span::props());
    v.extend(retry::props());
    v.extend(hedge::props());
    v.extend(cache::props());
    v.extend(balance::props());
    v.extend(load::props());
    v.extend(discover::props());
    v.extend(server::props());
    v.extend(stack::props());
    v.extend(util::props());
    v.extend(system::props());
    v.extend(template::props());
    v.extend(threads::props());
    // thread-level parts of properties defined elsewhere
    for p in &mut v {
        match p.id {
            "B01" | "B03" => {
                p.scns[0].weight = 7;
                p.scns.push(threads::live_scn());
            }
            "B04" => {
                p.scns[0].weight = 9;
                p.scns[1].weight = 4;
                p.scns.push(threads::kill_scn());
            }
            "H02" => {
                p.scns[0].weight = 9;
                p.scns.push(threads::h02_scn());
                p.scns.push(threads::h02_moving_scn());
            }
            "B02" => {
                p.scns[0].weight = 7;
                p.scns.push(threads::b02_scn());
            }
            "W02" => {
                p.scns[0].weight = 7;
                p.scns.push(threads::w02_scn());
                p.scns.push(threads::w02_moving_scn());
            }
            _ => {}
        }
    }
    v
}
