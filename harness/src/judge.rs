//! What the application sees, judged against what was on the wire (runs whenever the endpoint rests).
use super::*;
use crate::mon::{MSess, RxDel, TxDel};
use crate::report;

type Cause = (&'static str, Option<Err2>);

impl World {
    // ---- bookkeeping -------------------------------------------------------------------------
    /// Collects the results of operations that have finished
    pub(super) fn sync(&mut self) -> bool {
        let mut more = false;
        // sessions
        let mut i = 0;
        while i < self.opening.len() {
            match self.opening[i].take() {
                None => i += 1,
                Some(r) => {
                    drop(self.opening.remove(i));
                    let was_full = self.opening_full.remove(i);
                    let given = self.opening_given.remove(i);
                    match r {
                        Ok(s) => {
                            let ch = s.local_channel_id();
                            let new = self
                                .w
                                .mon
                                .sess
                                .iter()
                                .find(|m| m.local == ch && m.local_init && m.begin_rx && !self.sess.iter().any(|x| x.uid == m.uid));
                            if let Some((uid, sent)) = new.map(|m| (m.uid, m.begin_tx_v.clone())) {
                                let (mut got, mut want) = (sent.clone(), sent);
                                got.resize(8, V::Null);
                                want.resize(8, V::Null);
                                want.truncate(5);
                                want.extend(given.0.into_iter().map(|v| if v == V::Map(vec![]) { V::Null } else { v }));
                                self.w.mon.c("begins compared with what the builder was given");
                                if mon::seen(mon::BEGIN, &got) != mon::seen(mon::BEGIN, &want) {
                                    let s = format!("the session's builder was given {:?}, its Begin carries {:?}", &want[5..], &got[5..]);
                                    self.v(&["A01"], "begin-differs", s);
                                }
                                self.sess.push(WSess { uid, chan: ch, s, end: vec![], app_ended: false, end_judged: false });
                            } else {
                                self.v(
                                    &["*", "N03"],
                                    "session-returned-wrong",
                                    format!("open_session returned channel {ch} which was not begun and answered"),
                                );
                            }
                        }
                        Err(e) => {
                            let (k, _) = proto_err(&e);
                            let full = was_full || self.live_chan_count() > self.w.mon.channel_limit() as usize;
                            if k == "TooManyChannels" {
                                self.w.mon.c("open refused for lack of channels");
                            }
                            if k == "BodyTooLarge" && given.1 {
                                self.w.mon.c("begins that fit no frame");
                                continue;
                            }
                            if !(self.conn_dead() || self.conn_ever_dead || (full && k == "TooManyChannels")) {
                                self.v(&["*", "N03"], "open-session-failed", format!("open_session failed with {e:?} without a cause"));
                            }
                        }
                    }
                }
            }
        }
        for i in 0..self.w.mon.sess.len() {
            let (uid, ch, ok) = {
                let s = &self.w.mon.sess[i];
                (s.uid, s.local, s.live() && !s.local_init)
            };
            if ok
                && !self.sess.iter().any(|x| x.uid == uid)
                && let Some(s) = app::session_of(&self.app, ch)
            {
                let rc = self.w.mon.sess[i].remote.unwrap();
                if s.remote_channel_id() == rc {
                    self.sess.push(WSess { uid, chan: ch, s, end: vec![], app_ended: false, end_judged: false });
                }
            }
        }
        // links
        self.bind();
        for i in 0..self.links.len() {
            let l = &mut self.links[i];
            if let Some(r) = l.aslot_s.as_ref().and_then(Slot::take) {
                match r {
                    Ok(s) => l.s = Some(s),
                    Err(e) => l.attach_err = Some(proto_err(&e)),
                }
                l.aslot_s = None;
            }
            if let Some(r) = l.aslot_r.as_ref().and_then(Slot::take) {
                match r {
                    Ok(r) => {
                        if l.own_limit != 0 {
                            r.set_max_message_size(l.own_limit);
                        }
                        l.inbox = Some(self.app.consume(&l.name, r.clone()));
                        more = true;
                        l.r = Some(r);
                    }
                    Err(e) => l.attach_err = Some(proto_err(&e)),
                }
                l.aslot_r = None;
            }
        }
        let new: Vec<_> = self.app.snd.borrow_mut().drain(..).collect();
        for (n, s) in new {
            if let Some(l) = self.links.iter_mut().find(|l| l.sender && l.att_id == n && n > 0 && l.s.is_none()) {
                l.s = Some(s);
            } else {
                self.v(&["E01"], "attach-event-unknown", format!("AttachSender '{n}' for a link nobody attached"));
            }
        }
        let new: Vec<_> = self.app.rcv.borrow_mut().drain(..).collect();
        for (n, r, ib) in new {
            if let Some(l) = self.links.iter_mut().find(|l| !l.sender && l.att_id == n && n > 0 && l.r.is_none()) {
                l.r = Some(r);
                l.inbox = Some(ib);
            } else {
                self.v(&["E01"], "attach-event-unknown", format!("AttachReceiver '{n}' for a link nobody attached"));
            }
        }
        // sends
        for i in 0..self.links.len() {
            for k in 0..self.links[i].sends.len() {
                let s = &mut self.links[i].sends[k];
                match s.slot.take() {
                    Some(Ok(d)) => {
                        s.ok = true;
                        s.did = Some(d.id());
                        let tag_bad = s.tag.as_ref().is_some_and(|t| d.tag()[..] != t[..]);
                        s.delivery = Some(Rc::new(RefCell::new(d)));
                        let (id, c) = (s.id, s.cancelled);
                        if tag_bad {
                            self.v(&["S06"], "delivery-tag-differs", format!("the delivery of op{id} has another tag than the one given"));
                        }
                        if c {
                            self.links[i].sends[k].cancelled = false;
                        }
                    }
                    Some(Err(e)) => s.err = Some(proto_err(&e)),
                    None => {}
                }
            }
        }
        if self.conn_dead() {
            self.conn_ever_dead = true;
        }
        more
    }

    pub(super) fn tx_of(&self, li: usize, k: usize) -> Option<&TxDel> {
        let l = &self.links[li];
        let did = l.sends[k].did?;
        let i = self.ms(l.suid)?;
        self.w.mon.sess[i].tx.iter().rev().find(|d| Some(d.link_uid) == l.uid && d.id == did)
    }
    fn ms_ref(&self, li: usize) -> Option<&MSess> {
        self.ms(self.links[li].suid).map(|i| &self.w.mon.sess[i])
    }

    fn causes(&self, li: usize) -> Vec<Cause> {
        let l = &self.links[li];
        let mut c: Vec<Cause> = vec![];
        if l.app_closed {
            c.push(("app-close", None));
        }
        if l.must_detach.is_some() {
            c.push(("must-detach", None));
        }
        if l.peer_refused {
            c.push(("refused", None));
        }
        if let Some(k) = self.ml(li)
            && k.det_rx
            && !l.peer_refused
        {
            c.push(("LinkDetached", k.det_rx_err.clone()));
        }
        self.sess_causes(l.suid, &mut c);
        c
    }
    fn sess_causes(&self, uid: usize, c: &mut Vec<Cause>) {
        if self.sess.iter().any(|s| s.uid == uid && s.app_ended) {
            c.push(("app-end", None));
        } else if let Some(i) = self.ms(uid)
            && self.w.mon.sess[i].end_rx
        {
            c.push(("SessionEnded", self.w.mon.sess[i].end_rx_err.clone()));
        }
        if self.w.mon.close_rx && !self.app_conn_closed {
            c.push(("Closed", self.w.mon.close_rx_err.clone()));
        }
        if self.app_conn_closed {
            c.push(("app-conn-close", None));
        }
        if self.cut {
            c.push(("cut", None));
        }
        if self.conn_cause {
            c.push(("other", None));
        }
    }
    /// error of an operation that failed because something above it went away
    fn judge_err(&mut self, what: &str, causes: &[Cause], got: &PErr) {
        if causes.is_empty() {
            self.v(&["*", "S08"], "failed-without-cause", format!("{what} failed with {got:?} although its link, session and connection are up"));
            return;
        }
        if let [(k, e)] = causes
            && matches!(*k, "LinkDetached" | "SessionEnded" | "Closed")
            && !self.app.gate.get()
        {
            self.w.mon.c("peer errors compared");
            if got.0 != *k || got.1 != *e {
                self.v(&["S12"], "error-differs", format!("{what} failed with {got:?}, the peer's {k} carried {e:?}"));
            }
        }
    }

    // ---- judging -----------------------------------------------------------------------------
    pub(super) fn check(&mut self) {
        self.sync();
        if let Some(p) = report::take_panic() {
            self.v(&["*", "S10"], &format!("panic-{}", report::panic_site(&p)), format!("panic: {p}"));
        }
        let bad: Vec<String> = self.app.misuse.take();
        for b in bad {
            self.v(&["E02"], "called-while-unready", b);
        }
        let bad: Vec<String> = self.app.odd.take();
        for b in bad {
            self.v(&["S04", "A01"], "accessors-contradict", b);
        }
        self.w.mon.quiet();
        if self.reported.len() > 8 || self.w.broken {
            return;
        }
        self.w.mon.c("rests judged");
        self.check_unsolicited();
        self.check_conn();
        for i in 0..self.sess.len() {
            self.check_sess(i);
        }
        for li in 0..self.links.len() {
            self.check_link(li);
        }
        self.check_events();
        self.check_views();
    }

    /// What the API shows of sessions and links against what was on the wire
    fn check_views(&mut self) {
        if self.conn_dead() {
            return;
        }
        for i in 0..self.sess.len() {
            let uid = self.sess[i].uid;
            let Some(mi) = self.ms(uid) else { continue };
            let m = self.w.mon.sess[mi].clone();
            if !m.live() || self.sess[i].app_ended {
                continue;
            }
            let s = self.sess[i].s.clone();
            self.w.mon.c("session views compared");
            let mut bad: Vec<(&[&str], String)> = vec![];
            let api = conv::t_frame(&ntex_amqp::codec::protocol::Frame::Begin(s.frame().clone()));
            let api = match &api {
                Ok(Some((V::Desc(_, b), _))) => match &**b {
                    V::List(l) => mon::seen(mon::BEGIN, l),
                    _ => String::new(),
                },
                x => format!("{x:?}"),
            };
            let want = mon::seen(mon::BEGIN, &m.begin_rx_v);
            if api != want {
                bad.push((&["A01"], format!("frame() of the session on channel {} shows {api}, the peer's Begin was {want}", m.local)));
            }
            if s.local_channel_id() != m.local || Some(s.remote_channel_id()) != m.remote {
                bad.push((&["A01", "N03"], format!("session {}/{:?} calls itself {}/{}", m.local, m.remote, s.local_channel_id(), s.remote_channel_id())));
            }
            match s.connection().get_session_by_local_id(m.local) {
                Some(o) if o.local_channel_id() == m.local && Some(o.remote_channel_id()) == m.remote => {}
                o => bad.push((&["A01", "N03"], format!("get_session_by_local_id({}) gives {:?}", m.local, o.map(|o| (o.local_channel_id(), o.remote_channel_id()))))),
            }
            let win = (m.window.cur - m.tx_frames).clamp(0, u32::MAX as i64) as u32;
            if !self.app.gate.get() && s.remote_window_size() != win {
                bad.push((&["A01", "S02"], format!("remote_window_size() of channel {} is {}, {win} frames are left", m.local, s.remote_window_size())));
            }
            self.views_of_links(&s, &m, &mut bad);
            for (p, w) in bad {
                self.v(p, "view-differs", w);
            }
        }
        for li in 0..self.links.len() {
            self.check_link_view(li);
        }
    }

    fn views_of_links(&mut self, s: &Session, m: &MSess, bad: &mut Vec<(&[&str], String)>) {
        const P: &[&str] = &["A01", "S08"];
        let ch = m.local;
        let mut lh: HashSet<u32> = HashSet::new();
        let mut rh: HashSet<u32> = HashSet::new();
        for k in &m.links {
            // not entirely over: nothing is said about its handles unless it is up
            if k.att_tx && !(k.det_tx && k.det_rx) {
                lh.insert(k.lh);
                rh.extend(k.rh);
            }
        }
        rh.extend(m.pend.iter().filter(|p| !p.det_rx).map(|p| p.rh));
        let busy: HashSet<u32> = m.pend.iter().map(|p| p.rh).collect();
        for k in &m.links {
            let closing = self.links.iter().any(|l| l.uid == Some(k.uid) && (l.app_closed || l.must_detach.is_some() || l.peer_refused));
            if !k.live() || closing || k.rh.is_some_and(|h| busy.contains(&h)) {
                continue;
            }
            let r = k.rh.unwrap();
            self.w.mon.c("live links looked up");
            let sl = |x: Option<&SenderLink>| x.map(|x| (x.name().to_string(), x.id(), x.remote_handle(), x.is_opened(), x.is_closed()));
            let rl = |x: Option<&ReceiverLink>| x.map(|x| (x.name().to_string(), x.handle(), x.remote_handle(), true, x.is_closed()));
            let want = Some((k.name.clone(), k.lh, r, true, false));
            let (a, b, c, d) = (
                sl(s.get_sender_link_by_local_handle(k.lh)),
                sl(s.get_sender_link_by_remote_handle(r)),
                rl(s.get_receiver_link_by_local_handle(k.lh)),
                rl(s.get_receiver_link_by_remote_handle(r)),
            );
            let (own, other) = if k.sender { ((a, b), (c, d)) } else { ((c, d), (a, b)) };
            if own.0 != want || own.1 != want {
                bad.push((P, format!("channel {ch}: '{}' (handles {}/{r}) is found as {:?} by its local and {:?} by its remote handle", k.name, k.lh, own.0, own.1)));
            }
            // local and remote handles are numbered apart: the other kind must not answer for this link
            if other.0.is_some() || other.1.as_ref().is_some_and(|o| o.2 == r) {
                bad.push((P, format!("channel {ch}: handles {}/{r} of '{}' also find {other:?} of the other kind", k.lh, k.name)));
            }
            if k.sender {
                let same = m.links.iter().filter(|o| o.sender && o.name == k.name && o.att_tx && !(o.det_tx && o.det_rx)).count()
                    + m.pend.iter().filter(|o| o.sut_sender && o.name == k.name).count();
                let got = sl(s.get_sender_link(&k.name));
                if same == 1 && got != want {
                    bad.push((P, format!("channel {ch}: the sender '{}' (handles {}/{r}) is found as {got:?} by its name", k.name, k.lh)));
                }
            }
        }
        let top = lh.iter().chain(rh.iter()).filter(|h| **h < 60).max().copied().unwrap_or(0) + 2;
        for h in 0..=top {
            if !lh.contains(&h) && (s.get_sender_link_by_local_handle(h).is_some() || s.get_receiver_link_by_local_handle(h).is_some()) {
                bad.push((P, format!("channel {ch}: a link is found by the local handle {h} nobody uses")));
            }
            if !rh.contains(&h) && (s.get_sender_link_by_remote_handle(h).is_some() || s.get_receiver_link_by_remote_handle(h).is_some()) {
                bad.push((P, format!("channel {ch}: a link is found by the remote handle {h} nobody uses")));
            }
        }
        for k in &m.links {
            if k.sender && k.det_tx && k.det_rx && !m.links.iter().any(|o| o.name == k.name && o.sender && !(o.det_tx && o.det_rx)) && !m.pend.iter().any(|o| o.name == k.name) {
                self.w.mon.c("gone links looked up");
                if s.get_sender_link(&k.name).is_some() {
                    bad.push((P, format!("channel {ch}: the detached sender '{}' is still found by its name", k.name)));
                }
            }
        }
    }

    fn check_link_view(&mut self, li: usize) {
        let Some(k) = self.ml(li).cloned() else { return };
        let name = self.links[li].name.clone();
        if !self.links[li].given_ok
            && let Some(g) = self.links[li].given.clone()
        {
            self.links[li].given_ok = true;
            let mut want = vec![V::Null; 14];
            (want[0], want[1]) = (st(&name), V::Uint(k.lh));
            for (i, v) in g {
                want[i] = v;
            }
            self.w.mon.c("attaches compared with what the builder was given");
            let mut got = k.att_tx_v.clone();
            got.resize(14, V::Null);
            for l in [&mut got, &mut want] {
                // no property was set
                if l[13] == V::Map(vec![]) {
                    l[13] = V::Null;
                }
            }
            let (got, want) = (mon::seen(mon::ATTACH, &got), mon::seen(mon::ATTACH, &want));
            if got != want {
                self.v(&["A01"], "attach-differs", format!("the builder of '{name}' made {want}, the wire has {got}"));
            }
        }
        if self.links[li].view_ok || !self.link_live(li) || self.links[li].refuse.is_some() || self.links[li].must_detach.is_some() {
            return;
        }
        let rh = k.rh.unwrap_or(0);
        if let Some(s) = &self.links[li].s {
            let set = self.links[li].set_limit as u32;
            let max = if set > 0 {
                Some(set)
            } else if k.peer_max_msg == 0 { None } else { Some(k.peer_max_msg.min(u64::from(u32::MAX)) as u32) };
            let got = (s.name().to_string(), s.id(), s.remote_handle(), s.session().local_channel_id());
            let chan = self.ms_ref(li).map_or(0, |m| m.local);
            let want = (name.clone(), k.lh, rh, chan);
            let lim = s.max_message_size();
            if got != want {
                self.v(&["A01", "S08"], "view-differs", format!("the sender '{name}' shows {got:?} for (name, handle, remote handle, channel), it is {want:?}"));
            } else if lim != max {
                self.v(&["A01", "S11"], "view-differs", format!("the sender '{name}' shows a maximum message size of {lim:?}, the peer's Attach has {max:?}"));
            }
        } else if let Some(r) = &self.links[li].r {
            let got = (r.name().to_string(), r.handle(), r.remote_handle(), r.session().local_channel_id());
            let want = (name.clone(), k.lh, rh, self.ms_ref(li).map_or(0, |m| m.local));
            if got != want {
                self.v(&["A01", "S08"], "view-differs", format!("the receiver '{name}' shows {got:?} for (name, handle, remote handle, channel), it is {want:?}"));
            }
        } else {
            return;
        }
        self.links[li].view_ok = true;
        self.w.mon.c("link views compared");
        // the answer to the peer's attach is about the same terminus
        if !k.local_init {
            let t = |l: &[V], i: usize| {
                let mut x = vec![V::Null; 14];
                (x[0], x[1], x[2]) = (st(""), V::Uint(0), V::Bool(true));
                x[i] = l.get(i).cloned().unwrap_or(V::Null);
                mon::seen(mon::ATTACH, &x)
            };
            for i in [5, 6] {
                let (a, b) = (t(&k.att_tx_v, i), t(&k.att_rx_v, i));
                if a != b {
                    self.v(&["A01"], "terminus-differs", format!("'{name}': the peer attached to {b}, the endpoint confirmed {a}"));
                }
            }
        }
    }

    fn check_unsolicited(&mut self) {
        let m = &self.w.mon;
        let mut bad = vec![];
        let cause = m.close_rx || self.app_conn_closed || self.cut || self.conn_cause;
        if m.close_tx && !cause {
            bad.push(("unsolicited-close", format!("the endpoint closed the connection by itself: {:?}", m.close_tx_err)));
        }
        if self.ended.done() && !cause && !m.close_tx {
            bad.push(("ended-by-itself", format!("the endpoint stopped by itself: {:?}", self.ended.with(|r| format!("{r:?}")))));
        }
        if !cause && !m.close_tx {
            for s in &m.sess {
                let app = self.sess.iter().any(|x| x.uid == s.uid && x.app_ended);
                if s.end_tx && !s.end_rx && !app {
                    bad.push(("unsolicited-end", format!("the endpoint ended the session on channel {} by itself: {:?}", s.local, s.end_tx_err)));
                }
                if s.end_tx || s.end_rx {
                    continue;
                }
                for k in &s.links {
                    if k.det_tx && !k.det_rx {
                        let l = self.links.iter().find(|l| l.uid == Some(k.uid));
                        if !l.is_some_and(|l| l.app_closed || l.must_detach.is_some() || l.peer_refused) {
                            bad.push(("unsolicited-detach", format!("the endpoint detached '{}' by itself: {:?}", k.name, k.det_tx_err)));
                        }
                    }
                }
            }
        }
        for (k, w) in bad {
            self.v(&["*", "S08"], k, w);
        }
    }

    fn check_conn(&mut self) {
        let dead = self.conn_dead();
        let unanswered = self.w.mon.sess.iter().filter(|s| s.local_init && !s.begin_rx).count();
        let pending = self.opening.iter().filter(|s| !s.done()).count();
        if dead && pending > 0 {
            self.v(&["S07"], "open-session-hangs", format!("{pending} open_session pending on a dead connection"));
        } else if !dead && pending > unanswered {
            self.v(
                &["*", "S07", "N03"],
                "open-session-hangs",
                format!("{pending} open_session pending, only {unanswered} Begin await an answer"),
            );
        }
        let mut bad = vec![];
        for s in &self.conn_on_close {
            if dead && !s.done() {
                bad.push(("conn-on-close-pending", "on_close of a dead connection is still pending"));
            }
            if !dead && s.done() {
                bad.push(("conn-on-close-early", "on_close resolved although the connection is up"));
            }
        }
        if dead && self.conn_close.iter().any(|s| !s.done()) {
            bad.push(("conn-close-pending", "close of the connection is still pending"));
        }
        for (k, w) in bad {
            self.v(&["S07"], k, w);
        }
        let c = self.app.conn.borrow().clone();
        if let Some(c) = c {
            let (o, e) = (c.is_opened(), c.get_error().as_ref().map(proto_err));
            if !dead && (!o || e.is_some()) {
                self.v(&["S07", "A01"], "conn-view-closed", format!("the connection is up: is_opened() is {o}, get_error() {e:?}"));
            }
            if self.ended.done() && (o || e.is_none()) {
                self.v(&["S07", "A01"], "conn-view-open", format!("the connection is over: is_opened() is {o}, get_error() {e:?}"));
            }
            // the first thing that went wrong is what is kept
            if let Some(e) = &e {
                if self.w.mon.close_rx && !self.app_conn_closed && !self.cut && !self.conn_cause && !self.app.gate.get() {
                    self.w.mon.c("connection errors compared");
                    if e.0 != "Closed" || e.1 != self.w.mon.close_rx_err {
                        let w = self.w.mon.close_rx_err.clone();
                        self.v(&["S12"], "connection-error-differs", format!("get_error() of the connection is {e:?}, the peer closed it with {w:?}"));
                    }
                }
                match &self.conn_err {
                    None => self.conn_err = Some(e.clone()),
                    Some(x) if x != e => {
                        let x = x.clone();
                        self.v(&["S12"], "connection-error-replaced", format!("get_error() of the connection was {x:?} and is {e:?}"));
                    }
                    _ => {}
                }
            }
            if dead && o && (self.app_conn_closed || self.w.mon.close_tx) {
                self.v(&["S07", "A01"], "conn-view-open", format!("the connection is closed: is_opened() is {o}"));
            }
        }
    }

    fn check_sess(&mut self, i: usize) {
        let uid = self.sess[i].uid;
        let Some(mi) = self.ms(uid) else { return };
        let (end_rx, ch) = (self.w.mon.sess[mi].end_rx, self.sess[i].chan);
        let pend = self.sess[i].end.iter().any(|s| !s.done());
        if pend && (end_rx || self.conn_dead()) {
            self.v(&["S07"], "session-end-hangs", format!("end() of the session on channel {ch} still pending, end received: {end_rx}"));
        }
        if !end_rx && !self.conn_dead() && self.sess[i].end.iter().any(Slot::done) {
            let r = self.sess[i].end.iter().find(|s| s.done()).unwrap().with(|r| format!("{r:?}"));
            self.v(&["S09", "S07"], "session-end-early", format!("end() of channel {ch} returned {r} before the peer's End"));
        }
        if end_rx
            && !self.sess[i].end_judged
            && let Some(first) = self.sess[i].end.first().filter(|s| s.done())
        {
            let got = first.with(|r| r.map(|r| r.as_ref().err().map(proto_err))).flatten();
            self.sess[i].end_judged = true;
            if !self.w.mon.sess[mi].end_rx_first && !self.conn_dead() {
                let want = self.w.mon.sess[mi].end_rx_err.clone().map(|e| ("SessionEnded", Some(e)));
                self.w.mon.c("results of end() compared");
                if got != want {
                    self.v(&["S12"], "end-result-differs", format!("end() of channel {ch} returned {got:?}, the peer's End was {want:?}"));
                }
            }
        }
        if self.sess[i].app_ended && !self.conn_dead() && !self.w.mon.sess[mi].end_tx {
            self.v(&["S09"], "end-not-sent", format!("session on channel {ch} was ended by the application, no End was sent"));
        }
    }

    #[allow(clippy::too_many_lines)]
    fn check_link(&mut self, li: usize) {
        let gate = self.app.gate.get();
        let dead = self.link_dead(li);
        let over = self.link_over(li);
        let causes = self.causes(li);
        let name = self.links[li].name.clone();
        let k = self.ml(li).cloned();

        if let (Some(n), Some(k)) = (self.links[li].granted, &k)
            && self.links[li].r.is_some()
            && self.link_live(li)
            && !gate
        {
            self.w.mon.c("links granted credit while they are attached");
            // an aborted delivery gives its credit back
            let si = self.ms(self.links[li].suid).unwrap_or(0);
            let back = self.w.mon.sess[si].rx.iter().filter(|d| d.link_uid == k.uid && d.aborted).count();
            if k.credit.ever != i64::from(n) + back as i64 {
                let e = k.credit.ever;
                self.v(&["S03"], "attach-grant-differs", format!("'{name}' was granted {n} deliveries by a service while it was attached, the peer was told {e}"));
            }
        }
        // attach
        let att_pending = self.links[li].aslot_s.is_some() || self.links[li].aslot_r.is_some();
        if att_pending {
            let answered = k.as_ref().is_some_and(|k| k.att_rx) && !(self.links[li].peer_refused && !k.as_ref().unwrap().det_rx);
            if over {
                self.v(&["S07"], "attach-hangs", format!("attach of '{name}' is pending although its link, session or connection is gone"));
            } else if answered && !dead {
                self.v(&["*", "S07", "S08"], "attach-hangs", format!("attach of '{name}' is pending, the peer has answered"));
            } else if k.is_none() && !dead {
                self.v(&["*"], "attach-not-sent", format!("attach of '{name}' is pending and no Attach was sent"));
            }
        }
        if let Some(e) = self.links[li].attach_err.clone()
            && !self.links[li].ctl_done
        {
            self.links[li].ctl_done = true;
            if e.0 == "BodyTooLarge" && self.links[li].too_big {
                self.w.mon.c("attaches that fit no frame");
                if k.is_some() {
                    self.v(&["A01", "N02"], "attach-sent-and-failed", format!("attach of '{name}' failed with BodyTooLarge, its Attach was sent"));
                }
                return;
            }
            self.judge_err(&format!("attach of '{name}'"), &causes, &e);
        }
        let Some(k) = k else { return };

        // detaches the endpoint owes
        if !gate && !self.sess_dead(self.links[li].suid) && !k.det_rx {
            if let Some(m) = self.links[li].must_detach.clone() {
                let props: &[&str] = if self.links[li].size_limit_hit { &["S11", "S12"] } else { &["S12"] };
                if !k.det_tx && !self.links[li].app_closed {
                    if k.att_tx && self.links[li].oversize_done(&k, self.ms_ref(li)) {
                        self.v(props, "detach-missing", format!("'{name}' had to be detached with {m:?} and was not"));
                    }
                } else if k.det_tx && !self.links[li].app_closed {
                    let got = k.det_tx_err.clone();
                    let ok = got.as_ref().is_some_and(|g| g.0 == m.0 && (m.1.is_none() || g.1 == m.1));
                    self.w.mon.c("own detach errors compared");
                    if !ok {
                        self.v(props, "detach-error-differs", format!("'{name}' was detached with {got:?}, expected {m:?}"));
                    }
                }
            } else if self.links[li].app_closed {
                if !k.det_tx {
                    self.v(&["S09"], "detach-not-sent", format!("'{name}' was closed by the application, no Detach was sent"));
                } else if !same_err(&k.det_tx_err, &self.links[li].close_err, self.w.mon.peer_max_frame) {
                    let (a, b) = (k.det_tx_err.clone(), self.links[li].close_err.clone());
                    self.v(&["S12"], "detach-error-differs", format!("'{name}' was closed with {b:?}, the Detach carries {a:?}"));
                }
            }
        }
        // close()
        let closed = self.link_gone(li);
        if closed && self.links[li].close.iter().any(|s| !s.done()) {
            self.v(&["S07"], "close-hangs", format!("close of '{name}' is still pending, everything it waits for is over"));
        }
        if !closed && self.links[li].close.iter().any(Slot::done) && self.links[li].must_detach.is_none() && !dead {
            self.v(&["S09"], "close-early", format!("close of '{name}' completed before the peer's Detach"));
        }
        self.check_close(li, &k, &causes);
        if self.links[li].sender {
            self.check_sender(li, &k, dead, gate, &causes);
        } else {
            self.check_receiver(li, &k, dead, gate, &causes);
            self.check_rwaits(li, &k, dead, gate, &causes);
        }
    }

    /// close() reports how the peer answered
    fn check_close(&mut self, li: usize, k: &MLink, causes: &[Cause]) {
        let l = &mut self.links[li];
        let Some(first) = l.close.first().filter(|s| s.done() && !l.close_judged) else { return };
        l.close_judged = true;
        let got = first.with(|r| r.map(|r| r.as_ref().err().map(proto_err))).flatten();
        let name = l.name.clone();
        if !k.det_rx && causes.len() == 2 && causes.iter().any(|c| c.0 == "cut") && causes.iter().any(|c| c.0 == "app-close") {
            self.w.mon.c("closes the connection was lost during");
            if got.is_none() {
                self.v(&["S12", "S07"], "close-result-differs", format!("close of '{name}' succeeded, the peer never answered it and the connection was lost"));
            }
            return;
        }
        if k.det_rx_first || causes.iter().any(|c| !matches!(c.0, "app-close" | "LinkDetached" | "SessionEnded" | "Closed")) {
            return;
        }
        let want = match causes.iter().find(|c| c.0 != "app-close") {
            None => return,
            Some(("LinkDetached", None)) => None,
            Some(c) => Some(c.clone()),
        };
        self.w.mon.c("results of close() compared");
        if want.as_ref().is_some_and(|w| w.1.is_some()) {
            self.w.mon.c("errors of close() compared");
        }
        if got != want {
            self.v(&["S12"], "close-result-differs", format!("close of '{name}' returned {got:?}, the peer's answer was {want:?}"));
        }
    }

    fn check_sender(&mut self, li: usize, k: &MLink, dead: bool, gate: bool, causes: &[Cause]) {
        let name = self.links[li].name.clone();
        let (win_left, mut frames) = {
            let s = self.ms_ref(li).unwrap();
            (s.window.cur - s.tx_frames, vec![])
        };
        for d in &self.ms_ref(li).unwrap().tx {
            if d.link_uid == k.uid {
                frames.push(d.clone());
            }
        }
        // finished sends against the wire
        let ok: Vec<usize> = (0..self.links[li].sends.len()).filter(|&x| self.links[li].sends[x].ok).collect();
        if frames.len() > ok.len() {
            let d = &frames[ok.len()];
            let op = self.links[li].sends.iter().find(|s| s.body == d.body).map(|s| (s.id, s.over, s.cancelled));
            let p: &[&str] = if op.is_some_and(|o| o.1) { &["S11", "S04"] } else { &["S04", "S06"] };
            self.v(p, "transfer-nobody-sent", format!("'{name}': a delivery ({}B) on the wire belongs to no successful send (op {op:?})", d.body.len()));
            return;
        }
        let from = self.links[li].tx_ok.min(frames.len());
        for (n, d) in frames.iter().enumerate().skip(from) {
            let s = &self.links[li].sends[ok[n]];
            let mut bad = None;
            if d.done && !d.aborted && d.body != s.body {
                let other = self.links[li].sends.iter().find(|o| o.body == d.body).map(|o| o.id);
                bad = Some(format!(
                    "delivery {} carries {}B ({}), the send was op{} with {}B",
                    d.id,
                    d.body.len(),
                    other.map_or("no send's body".into(), |o| format!("op{o}'s body")),
                    s.id,
                    s.body.len()
                ));
            } else if !d.done && !s.body.starts_with(&d.body) {
                bad = Some(format!("partial delivery {} is not a prefix of op{}", d.id, s.id));
            } else if s.tag.as_ref().is_some_and(|t| *t != d.tag) {
                bad = Some(format!("delivery {} has tag {:02x?}, op{} was sent with {:02x?}", d.id, d.tag, s.id, s.tag));
            } else if s.format.unwrap_or(0) != d.format {
                bad = Some(format!("delivery {} has format {}, op{} was sent with {:?}", d.id, d.format, s.id, s.format));
            }
            let did_bad = s.did != Some(d.id);
            let set_bad = d.done && s.settled != d.presettled;
            let (sid, did) = (s.id, s.did);
            if let Some(b) = bad {
                self.v(&["S04"], "sent-differs", format!("'{name}': {b}"));
                if self.prop == "S01" || self.prop == "S02" {
                    let p = self.prop.clone();
                    self.v(&[&p], "order-differs", format!("'{name}': {b}"));
                }
            }
            if did_bad {
                self.v(&["S05", "S06"], "delivery-id-differs", format!("'{name}': op{sid} was told delivery id {did:?}, the wire has {}", d.id));
            }
            if set_bad {
                self.v(&["S06"], "settled-flag-differs", format!("'{name}': op{sid} settled differently on the wire: {}", d.presettled));
            }
            if d.done {
                self.w.mon.c("sent deliveries compared");
                self.links[li].tx_ok = n + 1;
            } else {
                break;
            }
        }
        // everything accepted is on the wire, unless the window is shut
        let behind = ok.len() > frames.len() || frames.iter().any(|d| !d.done && !d.aborted);
        if behind && !dead && !gate && win_left > 0 {
            self.v(
                &["S02", "S04"],
                "transfers-stuck",
                format!("'{name}': {} sends accepted, {} deliveries on the wire, the window has room for {win_left} frames", ok.len(), frames.len()),
            );
        }
        // pending and failed sends
        for x in 0..self.links[li].sends.len() {
            let s = &self.links[li].sends[x];
            let id = s.id;
            if s.over && s.ok {
                self.v(&["S11"], "oversize-sent", format!("'{name}': op{id} is above the peer's max-message-size {} and was accepted", k.peer_max_msg));
            }
            let s = &self.links[li].sends[x];
            if let Some(e) = s.err.clone() {
                if s.err_judged {
                    continue;
                }
                self.links[li].sends[x].err_judged = true;
                let s = &self.links[li].sends[x];
                if e.0 == "BodyTooLarge" {
                    if !s.over {
                        let n = s.body.len();
                        self.v(&["S11", "S04"], "refused-within-limit", format!("'{name}': op{id} of {n}B was refused, the limit is {}", k.peer_max_msg));
                    } else {
                        self.w.mon.c("oversize sends refused");
                    }
                } else if !s.born_dead {
                    self.judge_err(&format!("send op{id} on '{name}'"), causes, &e);
                }
            } else if !s.ok && !s.cancelled {
                if dead {
                    if self.link_over(li) && (!gate || self.links[li].app_closed) {
                        self.v(&["S07"], "send-hangs", format!("send op{id} on '{name}' is pending although the link is gone ({causes:?})"));
                    }
                } else if !gate && k.credit.cur > k.begun && win_left > 0 {
                    self.v(
                        &["S01", "S02"],
                        "send-stuck",
                        format!(
                            "send op{id} on '{name}' waits although {} deliveries of credit and {win_left} frames of window remain",
                            k.credit.cur - k.begun
                        ),
                    );
                }
            }
        }
        for x in 0..self.links[li].sends.len() {
            for y in 0..self.links[li].sends[x].waits.len() {
                self.check_wait(li, x, y, dead, gate, causes);
            }
        }
        // what the application did with its own deliveries
        if !dead && !self.links[li].app_closed && !self.sess.iter().any(|z| z.uid == self.links[li].suid && z.app_ended) {
            for x in 0..self.links[li].sends.len() {
                let Some(d) = self.tx_of(li, x).filter(|d| !d.settled_by_peer).cloned() else { continue };
                let s = &self.links[li].sends[x];
                if s.own.is_empty() && !s.dropped && d.disp.is_empty() {
                    continue;
                }
                let max = self.w.mon.peer_max_frame;
                let n = s.own.len();
                let extra = s.dropped && !s.settled && s.local_settled.is_none();
                let ok = d.disp.len() == n + usize::from(extra)
                    && d.disp.iter().zip(&s.own).all(|(a, b)| a.0 == b.0 && same_sent_state(&a.1, &b.1, max))
                    && (!extra || d.disp.last().is_some_and(|l| l.0));
                let (id, own, dropped) = (s.id, s.own.clone(), s.dropped);
                self.w.mon.c("dispositions of the sender compared");
                if !ok {
                    self.v(&["S05"], "sender-disposition-differs", format!("op{id} on '{name}': the application gave {own:?}, dropped: {dropped}; the wire shows {:?}", d.disp));
                }
            }
        }
        // the states the API shows
        if !dead && !gate && !self.links[li].app_closed && !self.sess.iter().any(|z| z.uid == self.links[li].suid && z.app_ended) {
            for x in 0..self.links[li].sends.len() {
                let s = &self.links[li].sends[x];
                let Some(dl) = &s.delivery else { continue };
                if s.settled || s.local_settled.is_some() || s.dropped {
                    continue;
                }
                let Some(d) = self.tx_of(li, x) else { continue };
                if d.states.iter().any(|v| code_of(v) == 0x27) {
                    continue;
                }
                let dl = dl.borrow();
                let (id, got, set) = (s.id, dl.remote_state(), dl.is_remote_settled());
                let shown = got.as_ref().map(conv::t_state);
                let ok = match (&shown, d.states.last()) {
                    (None, None) => true,
                    (Some(Ok(g)), Some(w)) => same_state(w, g),
                    _ => false,
                };
                let (want, want_set) = (d.states.last().cloned(), d.settled_by_peer);
                drop(dl);
                self.w.mon.c("delivery states shown compared");
                if !ok {
                    self.v(&["S05"], "state-shown-differs", format!("remote_state() of op{id} on '{name}' is {shown:?}, the peer gave {want:?}"));
                }
                if set != want_set {
                    self.v(&["S05"], "settled-shown-differs", format!("is_remote_settled() of op{id} on '{name}' is {set}, the peer settled it: {want_set}"));
                }
            }
        }
        // the credit the API shows
        if !dead
            && !gate
            && let Some(s) = &self.links[li].s
        {
            let want = (k.credit.cur - ok.len() as i64).max(0);
            let got = i64::from(s.credit());
            let closed = s.is_closed();
            if got != want {
                self.v(&["S01"], "credit-differs", format!("'{name}': credit() is {got}, the flows received leave {want}"));
            }
            if closed {
                self.v(&["*", "S08"], "closed-without-cause", format!("sender '{name}' says it is closed"));
            }
        }
        let over = self.link_over(li);
        if over
            && !gate
            && let Some(s) = &self.links[li].s
        {
            if !s.is_closed() {
                self.v(&["S07"], "not-closed", format!("sender '{name}' does not say it is closed ({causes:?})"));
            }
            let e = self.links[li].s.as_ref().unwrap().error().map(proto_err);
            if let [(kind, err)] = causes
                && *kind == "LinkDetached"
            {
                self.w.mon.c("peer errors compared");
                if e.as_ref().map(|e| e.1.clone()) != Some(err.clone()) {
                    self.v(&["S12"], "error-differs", format!("sender '{name}' reports {e:?}, the peer's Detach carried {err:?}"));
                }
            }
        }
        let mut bad = vec![];
        for r in &self.links[li].ready {
            match (r.done(), r.with(|b| b.copied())) {
                (false, _) if over && !gate => bad.push((&["S07"][..], "ready-hangs", "ready() is pending although the link is gone")),
                (false, _) if !gate && !dead && k.credit.cur > ok.len() as i64 => bad.push((&["S01"][..], "ready-stuck", "ready() is pending although there is credit")),
                (true, Some(false)) if !dead => bad.push((&["S01"][..], "ready-false", "ready() says the link is closed, it is not")),
                _ => {}
            }
        }
        for (r, had) in &self.links[li].credit_upd {
            if !r.done() && over && !gate {
                bad.push((&["S07"], "credit-update-hangs", "on_credit_update() is pending although the link is gone"));
            }
            let since = had.is_none_or(|n| k.flows_rx > n);
            if !r.done() && since && !gate && !dead && k.credit.cur > ok.len() as i64 {
                bad.push((&["S01"], "credit-update-missed", "on_credit_update() is pending although credit has arrived since"));
            }
        }
        for r in &self.links[li].on_close {
            if over && !r.done() && !gate {
                bad.push((&["S07"][..], "on-close-hangs", "on_close() is pending although the link is gone"));
            }
            if !dead && r.done() {
                bad.push((&["S07", "S08"][..], "on-close-early", "on_close() resolved although the link is up"));
            }
        }
        for (p, key, w) in bad {
            self.v(p, key, format!("'{name}': {w} ({causes:?})"));
        }
    }

    fn check_wait(&mut self, li: usize, x: usize, y: usize, dead: bool, gate: bool, causes: &[Cause]) {
        let name = self.links[li].name.clone();
        let s = &self.links[li].sends[x];
        let w = &s.waits[y];
        if w.judged {
            return;
        }
        let d = self.tx_of(li, x).cloned().unwrap_or_default();
        let id = s.id;
        let modified = d.states.iter().any(|v| code_of(v) == 0x27);
        let done = w.slot.done();
        if !done {
            if s.settled || w.after_settle {
                self.v(&["S05", "S07"], "wait-settled-hangs", format!("wait for op{id} on '{name}' hangs, the delivery was settled by the sender"));
            } else if dead {
                if !gate && self.link_gone(li) {
                    self.v(&["S07"], "wait-hangs", format!("wait for op{id} on '{name}' hangs, the link is gone ({causes:?})"));
                }
            } else if d.settled_by_peer || (!d.states.is_empty() && !modified) {
                self.v(&["S05", "S07"], "wait-hangs", format!("wait for op{id} on '{name}' hangs, the peer gave it {:?}", d.states));
            }
            return;
        }
        let (known, after_settle) = (w.known, w.after_settle);
        let (settled, local) = (s.settled, s.local_settled.is_some());
        let r = w.slot.take().unwrap();
        self.links[li].sends[x].waits[y].judged = true;
        match r {
            Ok(None) => {
                if !(settled || local || after_settle || (d.settled_by_peer && (d.states.is_empty() || modified))) {
                    self.v(&["S05"], "outcome-lost", format!("wait for op{id} on '{name}' gave no outcome, the peer gave {:?}", d.states));
                }
            }
            Ok(Some(st)) => {
                self.w.mon.c("outcomes compared");
                match conv::t_state(&st) {
                    Ok(v) => {
                        // what arrives after the application ended the session may be ignored
                        let ended = self.sess.iter().any(|z| z.uid == self.links[li].suid && z.app_ended);
                        let from = if modified || ended { 0 } else { known.saturating_sub(1) };
                        if !d.states.iter().skip(from).any(|g| same_state(g, &v)) {
                            let all: Vec<_> = d.states.clone();
                            let whose: Vec<u32> = self
                                .all_sends(|_| true)
                                .into_iter()
                                .filter(|&(a, b)| self.tx_of(a, b).is_some_and(|t| t.states.iter().any(|g| same_state(g, &v))))
                                .map(|(a, b)| self.links[a].sends[b].id)
                                .collect();
                            self.v(
                                &["S05", "S12"],
                                "outcome-differs",
                                format!("wait for op{id} on '{name}' gave {v:?}, the peer gave delivery {} {all:?} (such an outcome went to ops {whose:?})", d.id),
                            );
                        }
                    }
                    Err(e) => self.v(&["S05"], "outcome-invalid", format!("wait for op{id} gave an invalid state: {e}")),
                }
            }
            Err(e) => {
                let e = proto_err(&e);
                self.judge_err(&format!("wait for op{id} on '{name}'"), causes, &e);
            }
        }
    }

    /// waits for the outcome of received deliveries
    fn check_rwaits(&mut self, li: usize, k: &MLink, dead: bool, gate: bool, causes: &[Cause]) {
        let name = self.links[li].name.clone();
        let Some(ib) = self.links[li].inbox.clone() else { return };
        let gone = self.link_gone(li);
        let ended = self.sess.iter().any(|z| z.uid == self.links[li].suid && z.app_ended);
        for m in &mut ib.borrow_mut().msgs {
            let Some((slot, known)) = &m.wait else { continue };
            let known = *known;
            let d = self.ms_ref(li).unwrap().rx.iter().find(|d| d.link_uid == k.uid && d.id == m.id).cloned().unwrap_or_default();
            let modified = d.states.iter().any(|v| code_of(v) == 0x27);
            if !slot.done() {
                if dead {
                    if !gate && gone {
                        self.v(&["S07"], "receiver-wait-hangs", format!("wait for delivery {} of '{name}' hangs, the link is gone ({causes:?})", m.id));
                    }
                } else if d.peer_settled || (!d.states.is_empty() && !modified) {
                    self.v(&["S05", "S07"], "receiver-wait-hangs", format!("wait for delivery {} of '{name}' hangs, the peer settled it: {}, and gave {:?}", m.id, d.peer_settled, d.states));
                }
                continue;
            }
            let (r, del) = slot.take().unwrap();
            m.wait = None;
            m.d = Some(del);
            self.w.mon.c("waits for received deliveries judged");
            match r {
                Ok(None) => {
                    if !(d.presettled || (d.peer_settled && (d.states.is_empty() || modified))) {
                        self.v(&["S05"], "receiver-outcome-lost", format!("wait for delivery {} of '{name}' gave no outcome, the peer settled it: {}, and gave {:?}", m.id, d.peer_settled, d.states));
                    }
                }
                Ok(Some(st)) => {
                    let from = if modified || ended { 0 } else { known.saturating_sub(1) };
                    let v = conv::t_state(&st);
                    if !matches!(&v, Ok(v) if d.states.iter().skip(from).any(|g| same_state(g, v))) {
                        self.v(&["S05", "S12"], "receiver-outcome-differs", format!("wait for delivery {} of '{name}' gave {v:?}, the peer gave {:?}", m.id, d.states));
                    }
                }
                Err(e) => {
                    let e = proto_err(&e);
                    self.judge_err(&format!("wait for delivery {} of '{name}'", m.id), causes, &e);
                }
            }
        }
    }

    fn check_receiver(&mut self, li: usize, k: &MLink, dead: bool, gate: bool, causes: &[Cause]) {
        let name = self.links[li].name.clone();
        let Some(ib) = self.links[li].inbox.clone() else { return };
        let limit = self.links[li].own_limit;
        let all: Vec<RxDel> = self.ms_ref(li).unwrap().rx.iter().filter(|d| d.link_uid == k.uid).cloned().collect();
        let want: Vec<&RxDel> = all.iter().filter(|d| d.done && !d.aborted && !d.overrun && (limit == 0 || d.body.len() as u64 <= limit)).collect();
        let ib = ib.borrow();
        if !gate && !dead && !ib.ended
            && let Some(r) = &self.links[li].r
            && !r.has_deliveries()
            && let Some((d, _)) = r.get_delivery()
        {
            let id = d.id();
            std::mem::forget(d);
            self.v(&["S04"], "unfinished-handed-over", format!("'{name}': get_delivery() hands over delivery {id}, nothing is complete"));
            return;
        }
        let n = ib.msgs.len();
        for x in self.links[li].msgs_ok..n {
            let m = &ib.msgs[x];
            let Some(d) = want.get(x) else {
                let p: &[&str] = if all.iter().any(|d| d.id == m.id && limit != 0 && d.body.len() as u64 > limit) { &["S11"] } else { &["S04"] };
                self.v(p, "message-nobody-sent", format!("'{name}': message {} ({}B) was handed over, the peer completed only {} deliveries", m.id, m.body.len(), want.len()));
                return;
            };
            let mut bad = vec![];
            if m.body != d.body {
                bad.push(format!("body of {}B, {}B were sent{}", m.body.len(), d.body.len(), all.iter().find(|o| o.body == m.body).map_or(String::new(), |o| format!(" (it is delivery {}'s)", o.id))));
            }
            if m.tag != d.tag {
                bad.push(format!("tag {:02x?}, sent {:02x?}", m.tag, d.tag));
            }
            if m.id != d.id {
                bad.push(format!("delivery id {}, sent {}", m.id, d.id));
            }
            if !d.perf.is_empty() {
                // the first Transfer of the delivery is what the application gets, with the whole body
                // and the settled flag of any of its frames
                let get = |l: &[V], settled: Option<bool>| {
                    let mut l = l.to_vec();
                    l.resize(11, V::Null);
                    l[5] = V::Null;
                    l[4] = V::Bool(settled.unwrap_or(l[4] == V::Bool(true)));
                    mon::seen(mon::TRANSFER, &l)
                };
                let a = match &m.perf {
                    V::Desc(_, b) => match &**b {
                        V::List(l) => get(l, None),
                        x => format!("{x:?}"),
                    },
                    x => format!("{x:?}"),
                };
                let b = get(&d.perf, Some(d.presettled));
                if a != b {
                    self.w.mon.c("transfer views that differ");
                    self.w.mon.v("A01", "transfer-view-differs", format!("'{name}': message {} is shown as {a}, its first Transfer was {b}", m.id));
                }
            }
            if m.format.unwrap_or(0) != d.format {
                bad.push(format!("format {:?}, sent {}", m.format, d.format));
            }
            self.w.mon.c("received deliveries compared");
            if !bad.is_empty() {
                self.v(&["S04"], "received-differs", format!("'{name}': message number {x} of the link arrived with {}", bad.join(", ")));
                return;
            }
            self.links[li].msgs_ok = x + 1;
        }
        let only_remote = matches!(causes, [("LinkDetached", _)]);
        if n < want.len() && (!dead || only_remote) && !gate {
            self.v(&["S04", "S11"], "message-lost", format!("'{name}': {} deliveries completed, {n} handed over", want.len()));
        }
        // dispositions
        for m in &ib.msgs {
            let Some(d) = all.iter().find(|d| d.id == m.id) else { continue };
            for (x, v) in d.disp.iter().enumerate() {
                let max = self.w.mon.peer_max_frame;
                let ok = if m.loose { m.sent.iter().any(|s| same_sent_state(v, s, max)) } else { m.sent.get(x).is_some_and(|s| same_sent_state(v, s, max)) };
                if !ok {
                    self.v(
                        &["S05", "S12"],
                        "disposition-differs",
                        format!("'{name}': disposition number {x} of delivery {} is {v:?}, the application gave {:?}", d.id, m.sent),
                    );
                }
            }
            if !m.loose && !dead && !d.peer_settled && d.disp.len() != m.sent.len() {
                self.v(
                    &["S05"],
                    "disposition-missing",
                    format!("'{name}': delivery {} got {} dispositions, the application gave {:?}", d.id, d.disp.len(), m.sent),
                );
            }
            if !m.loose && !dead && !d.peer_settled && m.settled != d.us_settled {
                self.v(&["S05"], "settled-differs", format!("'{name}': delivery {} settled by the application: {}, on the wire: {}", d.id, m.settled, d.us_settled));
            }
            let modified = d.states.iter().any(|v| code_of(v) == 0x27);
            if let (Some(dl), false, false, false, false, false) = (&m.d, dead, gate, m.settled, d.presettled, modified && m.waits > 0) {
                let (got, set) = (dl.remote_state().as_ref().map(conv::t_state), dl.is_remote_settled());
                let ok = match (&got, d.states.last()) {
                    (None, None) => true,
                    (Some(Ok(g)), Some(w)) => same_state(w, g),
                    _ => false,
                };
                self.w.mon.c("states of received deliveries compared");
                if !ok {
                    self.v(&["S05"], "received-state-shown-differs", format!("'{name}': remote_state() of delivery {} is {got:?}, the peer gave {:?}", d.id, d.states.last()));
                }
                if set != d.peer_settled {
                    self.v(&["S05"], "received-settled-shown-differs", format!("'{name}': is_remote_settled() of delivery {} is {set}, the peer settled it: {}", d.id, d.peer_settled));
                }
            }
        }
        for d in &all {
            if !d.disp.is_empty() && !ib.msgs.iter().any(|m| m.id == d.id) && !dead {
                self.v(&["S05"], "disposition-unasked", format!("'{name}': delivery {} got a disposition, the application never had it", d.id));
            }
        }
        // end of the stream
        if ib.ended && !dead {
            self.v(&["*", "S08"], "receiver-ended", format!("recv() on '{name}' ended although the link is up: {:?}", ib.err));
        }
        if !ib.ended && self.link_over(li) && !gate && !(self.links[li].must_detach.is_some() && !k.det_tx && !k.det_rx && !self.sess_dead(self.links[li].suid)) {
            self.v(&["S07"], "recv-hangs", format!("recv() on '{name}' is pending although the link is gone ({causes:?})"));
        }
        if ib.ended
            && !gate
            && let [("LinkDetached", e)] = causes
        {
            self.w.mon.c("peer errors compared");
            if ib.err != *e {
                self.v(&["S12"], "error-differs", format!("recv() on '{name}' ended with {:?}, the peer's Detach carried {e:?}", ib.err));
            }
        }
        // credit
        if !dead
            && !gate
            && let Some(r) = &self.links[li].r
        {
            let complete = all.iter().filter(|d| d.done || d.aborted).count() as i64;
            let want = (k.credit.cur - complete).max(0);
            let got = i64::from(r.credit());
            if got != want {
                self.v(&["S03"], "credit-differs", format!("'{name}': credit() is {got}, {want} is left of what it announced"));
            }
        }
    }

    fn check_events(&mut self) {
        if self.app.gate.get() || self.conn_dead() {
            return;
        }
        // names whose history is clean: nothing local interferes with what has to be reported
        let mut skip: HashSet<String> = HashSet::new();
        for l in &self.links {
            let ended = self.sess.iter().any(|s| s.uid == l.suid && s.app_ended);
            let peer_ended = self.ms(l.suid).is_some_and(|i| self.w.mon.sess[i].end_rx);
            let _ = peer_ended;
            if l.app_closed || ended || l.must_detach.is_some() || l.peer_refused || l.attach_err.is_some() {
                skip.insert(l.name.clone());
            }
        }
        let local: HashMap<usize, u16> = self.w.mon.sess.iter().map(|s| (s.uid, s.local)).collect();
        let at = |d: &str, c: Option<u16>| if d.is_empty() { format!("on {c:?}") } else { format!("{d} on {c:?}") };
        let want: Vec<(String, String, String)> = self
            .w
            .mon
            .events
            .iter()
            .map(|e| (e.name.clone(), e.kind.to_string(), at(&e.detail, local.get(&e.sess).copied())))
            .collect();
        let got: Vec<(String, String, String)> =
            self.app.ctl.borrow().iter().map(|e| (e.name.clone(), e.kind.to_string(), at(&e.detail, e.chan))).collect();
        let names: HashSet<String> = want.iter().chain(got.iter()).map(|e| e.0.clone()).filter(|n| !n.is_empty() && !skip.contains(n)).collect();
        let mut names: Vec<_> = names.into_iter().collect();
        names.sort();
        for n in names {
            let f = |v: &[(String, String, String)]| -> Vec<(String, String)> {
                v.iter().filter(|e| e.0 == n && !e.1.starts_with("Local")).map(|e| (e.1.clone(), e.2.clone())).collect()
            };
            let (w, g) = (f(&want), f(&got));
            self.w.mon.c("event sequences compared");
            if w != g {
                let x = w.iter().zip(g.iter()).position(|(a, b)| a != b).unwrap_or(w.len().min(g.len()));
                self.v(
                    &["E01"],
                    "events-differ",
                    format!("link '{n}': event number {x} should be {:?}, the control service got {:?} ({} due, {} reported)", w.get(x), g.get(x), w.len(), g.len()),
                );
            }
        }
        // session ends
        let n = |v: &[(String, String, String)], k: &str| v.iter().filter(|e| e.1 == k).count();
        let crossed = self
            .w
            .mon
            .sess
            .iter()
            .filter(|s| s.end_rx && self.sess.iter().any(|x| x.uid == s.uid && x.app_ended))
            .count();
        let (w, g) = (n(&want, "RemoteSessionEnded"), n(&got, "RemoteSessionEnded"));
        if g > w || g + crossed < w {
            self.v(&["E01"], "session-end-events", format!("{w} sessions were ended by the peer ({crossed} also locally), {g} RemoteSessionEnded reported"));
        }
        if crossed == 0 && g == w {
            self.check_ended_links();
        }
        let ended = self.sess.iter().filter(|x| x.app_ended).count();
        let g = n(&got, "LocalSessionEnded");
        if g > ended || g + crossed < ended {
            self.v(&["E01"], "session-end-events", format!("{ended} sessions were ended locally ({crossed} also by the peer), {g} LocalSessionEnded reported"));
        }
        // local detaches
        for l in &self.links {
            let ended = self.sess.iter().any(|s| s.uid == l.suid && s.app_ended);
            let reused = self.links.iter().filter(|o| o.name == l.name && o.sender == l.sender).count() > 1;
            if reused || ended {
                continue;
            }
            let kind = if l.sender { "LocalDetachSender" } else { "LocalDetachReceiver" };
            let g = got.iter().filter(|e| e.1 == kind && e.0 == l.name).count();
            let own = l.app_closed || l.must_detach.is_some();
            if g > usize::from(own) {
                let w = format!("{g} {kind} reported for '{}', closed locally: {own}", l.name);
                self.v(&["E01"], "local-detach-events", w);
                return;
            }
            if l.app_closed && g == 0 && !self.sess_dead(l.suid) && l.must_detach.is_none() && self.links.iter().any(|o| std::ptr::eq(o, l)) {
                let crossed = self.links.iter().position(|o| std::ptr::eq(o, l)).and_then(|i| self.ml(i)).is_some_and(|k| k.det_rx_first);
                if !crossed {
                    let w = format!("'{}' was closed locally, {kind} was not reported", l.name);
                    self.v(&["E01"], "local-detach-events", w);
                    return;
                }
            }
        }
        self.ctl_seen = got.len();
    }

    /// The report of a session's end lists the links that were attached to it
    fn check_ended_links(&mut self) {
        let due: Vec<usize> = self.w.mon.events.iter().filter(|e| e.kind == "RemoteSessionEnded").map(|e| e.sess).collect();
        let got: Vec<Vec<String>> =
            self.app.ctl.borrow().iter().filter(|e| e.kind == "RemoteSessionEnded").map(|e| e.links.clone()).collect();
        for (uid, got) in due.into_iter().zip(got) {
            let Some(s) = self.w.mon.sess.iter().find(|s| s.uid == uid) else { continue };
            let key = |snd: bool, n: &str| format!("{}:{n}", if snd { "s" } else { "r" });
            let closing = |k: &mon::MLink| {
                self.links.iter().any(|l| l.suid == uid && l.name == k.name && (l.app_closed || l.must_detach.is_some() || l.peer_refused || l.attach_err.is_some()))
            };
            let mut may: Vec<String> = s.links.iter().map(|k| key(k.sender, &k.name)).collect();
            may.extend(s.pend.iter().map(|p| key(p.sut_sender, &p.name)));
            let sure: Vec<String> = s.links.iter().filter(|k| k.live() && !closing(k)).map(|k| key(k.sender, &k.name)).collect();
            let ch = s.local;
            self.w.mon.c("session end reports compared");
            let dup = got.iter().enumerate().any(|(i, n)| got[..i].contains(n));
            if dup || sure.iter().any(|n| !got.contains(n)) || got.iter().any(|n| !may.contains(n)) {
                let w = format!("RemoteSessionEnded of the session on channel {} lists {got:?}; attached were {sure:?}, others seen {may:?}", ch);
                self.v(&["E01"], "session-end-links", w);
                return;
            }
        }
    }

    // ---- the end of a case -------------------------------------------------------------------
    fn work_left(&self) -> bool {
        self.opening.iter().any(|s| !s.done())
            || (0..self.links.len()).any(|i| {
                !self.link_dead(i) && (self.links[i].aslot_s.is_some() || self.links[i].aslot_r.is_some() || self.links[i].part.is_some())
                    || self.links[i].close.iter().any(|s| !s.done())
                    || self.link_live(i)
                        && self.links[i].sends.iter().any(|s| (!s.ok && s.err.is_none() && !s.cancelled) || s.waits.iter().any(|w| !w.judged))
            })
            || self.sess.iter().any(|s| s.end.iter().any(|e| !e.done()))
    }

    /// Lets everything pending complete: answers, credit, window, outcomes
    pub async fn drain_all(&mut self) {
        self.release();
        self.rest().await;
        for _ in 0..60 {
            if self.conn_dead() || self.reported.len() > 3 {
                return;
            }
            while self.p_answer().await {
                self.rest().await;
                if self.conn_dead() {
                    return;
                }
            }
            for li in 0..self.links.len() {
                while self.links[li].part.is_some() && self.link_live(li) {
                    self.transfer_step(li).await;
                }
            }
            self.rest().await;
            // a wait for everything not settled yet
            for (li, k) in self.all_sends(|s| s.delivery.is_some() && s.waits.is_empty()) {
                let d = self.links[li].sends[k].delivery.clone().unwrap();
                #[allow(clippy::await_holding_refcell_ref)]
                let slot = Slot::run(async move {
                    let d = d.borrow();
                    d.wait().await
                });
                let after_settle = self.links[li].sends[k].local_settled.is_some();
                let known = self.tx_of(li, k).map_or(0, |d| d.states.len());
                self.links[li].sends[k].waits.push(WaitOp { slot, judged: false, after_settle, known });
            }
            for i in self.live_sessions() {
                if i >= self.w.mon.sess.len() || !self.w.mon.sess[i].live() {
                    continue;
                }
                if self.w.mon.sess[i].window.cur - self.w.mon.sess[i].tx_frames < 1000 {
                    let (nii, nout, ch) = {
                        let s = &self.w.mon.sess[i];
                        (s.tx_first.wrapping_add(s.tx_frames as u32), s.rx_first.wrapping_add(s.rx_frames as u32), s.remote.unwrap())
                    };
                    let f = perf(mon::FLOW, vec![V::Uint(nii), V::Uint(1_000_000), V::Uint(nout), V::Uint(100)]);
                    self.send(ch, &f, &[]).await;
                }
                for k in 0..self.w.mon.sess[i].links.len() {
                    let (s, l, left) = {
                        let l = &self.w.mon.sess[i].links[k];
                        (l.sender, l.live(), l.credit.cur - l.begun)
                    };
                    if s && l && left < 50 {
                        let (h, dc, ch) = {
                            let s = &self.w.mon.sess[i];
                            let l = &s.links[k];
                            (l.rh.unwrap(), l.initial.wrapping_add(l.begun as u32), s.remote.unwrap())
                        };
                        let (nii, win, nout) = {
                            let s = &self.w.mon.sess[i];
                            (s.tx_first.wrapping_add(s.tx_frames as u32), (s.window.cur - s.tx_frames).max(0) as u32, s.rx_first.wrapping_add(s.rx_frames as u32))
                        };
                        let f = perf(mon::FLOW, vec![V::Uint(nii), V::Uint(win), V::Uint(nout), V::Uint(100), V::Uint(h), V::Uint(dc), V::Uint(1000)]);
                        self.send(ch, &f, &[]).await;
                    }
                }
            }
            self.rest().await;
            for i in self.live_sessions() {
                let ids: Vec<u32> = self.w.mon.sess[i]
                    .tx
                    .iter()
                    .filter(|d| d.done && !d.presettled && !d.settled_by_peer && !d.settled_by_us)
                    .map(|d| d.id)
                    .collect();
                for id in ids {
                    if !self.w.mon.sess[i].live() || self.conn_dead() {
                        break;
                    }
                    let st = self.state();
                    let ch = self.w.mon.sess[i].remote.unwrap();
                    let p = perf(mon::DISP, vec![V::Bool(true), V::Uint(id), V::Null, V::Bool(true), st]);
                    self.send(ch, &p, &[]).await;
                }
            }
            while self.a_settle() {}
            self.rest().await;
            if !self.work_left() {
                self.w.mon.c("cases drained completely");
                return;
            }
        }
        if !self.conn_dead() {
            self.v(&["*", "S07"], "never-drained", "operations are left pending although the peer has answered, granted and settled everything");
        }
    }

    pub async fn finish(&mut self) {
        if !self.conn_dead() && self.rng.chance(60) {
            self.drain_all().await;
        } else {
            self.release();
        }
        if !self.conn_dead() {
            // operations that are pending when the end comes
            for op in ["a_open", "a_attach_s", "a_attach_r", "a_send", "a_wait", "a_ready", "a_onclose", "a_onclose"] {
                if self.rng.chance(50) {
                    self.op(op).await;
                }
            }
            if self.rng.chance(50) {
                self.rest().await;
            }
        }
        if self.conn_dead() {
            self.rest().await;
            return;
        }
        let e = self.error();
        let c = self.app.conn.borrow().clone().unwrap();
        if self.rng.chance(self.p.fail_ready) {
            self.fail_ready(e).await;
            return;
        }
        let how = self.rng.below(6);
        self.w.mon.c(["end: peer Close", "end: app close", "end: app close with error", "end: transport lost", "end: transport error", "end: app force_close"][how]);
        match how {
            0 => {
                let p = perf(mon::CLOSE, vec![err_v(&e)]);
                self.send(0, &p, &[]).await;
                self.w.settle().await;
                if self.rng.chance(50) {
                    self.cut = true;
                    self.w.cut(false);
                }
            }
            1 | 2 => {
                self.w.mon.note(format!("app: close connection {e:?}"));
                self.app_conn_closed = true;
                let slot = match conv::error(&err_v(&e)) {
                    Some(x) if how == 2 => {
                        self.app_conn_err = e;
                        Slot::run(async move { c.close_with_error(x).await })
                    }
                    _ => Slot::run(async move { c.close().await }),
                };
                self.conn_close.push(slot);
                self.w.settle().await;
                if self.w.mon.close_tx {
                    if !same_err(&self.w.mon.close_tx_err, &self.app_conn_err, self.w.mon.peer_max_frame) {
                        let (a, b) = (self.w.mon.close_tx_err.clone(), self.app_conn_err.clone());
                        self.v(&["S12"], "close-error-differs", format!("Close carries {a:?}, the application closed with {b:?}"));
                    }
                } else {
                    self.v(&["S09"], "close-not-sent", "the application closed the connection, no Close was sent");
                }
                self.sync();
                self.send(0, &perf(mon::CLOSE, vec![]), &[]).await;
                self.w.settle().await;
                self.cut = true;
                self.w.cut(false);
            }
            3 | 4 => {
                self.cut = true;
                self.w.mon.lost = true;
                self.w.cut(how == 4);
            }
            _ => {
                self.w.mon.note("app: force_close");
                self.app_conn_closed = true;
                self.w.mon.lost = true;
                c.force_close();
                self.w.settle().await;
                self.cut = true;
                self.w.cut(false);
            }
        }
        self.over().await;
        self.end_events(how);
    }

    /// What the control service was told about the end of the connection
    fn end_events(&mut self, how: usize) {
        let seq: Vec<(&str, String)> = self
            .app
            .ctl
            .borrow()
            .iter()
            .filter(|c| matches!(c.kind, "ProtocolError" | "Disconnected" | "Closed"))
            .map(|c| (c.kind, c.detail.clone()))
            .collect();
        let want = match how {
            0 => ("ProtocolError", format!("{:?}", ("Closed", self.w.mon.close_rx_err.clone()))),
            3 => ("Disconnected", String::new()),
            4 => ("Disconnected", "Other".to_string()),
            _ => return,
        };
        self.w.mon.c("ends of connections the control service was told about");
        if self.ended.done() && seq != [want.clone(), ("Closed", String::new())] {
            self.v(&["E01", "S12"], "end-event-differs", format!("the connection ended with {want:?}, the control service was told {seq:?}"));
        }
    }

    /// The readiness check of a service fails
    async fn fail_ready(&mut self, e: Option<Err2>) {
        let e = e.unwrap_or(("amqp:internal-error".into(), None));
        let Some(x) = conv::error(&err_v(&Some(e.clone()))) else { return };
        let which = if self.cfg.server { self.rng.below(2) } else { 0 };
        if which == 0 {
            // its calls fail as well
            self.release();
            self.rest().await;
        }
        if self.conn_dead() {
            return;
        }
        let asked = self.rng.chance(60);
        let r = &self.app.ready[which];
        if asked && !r.off.get() {
            self.w.mon.note("service is not ready");
            r.set(true);
        }
        let n = r.asked_off.get();
        self.p_empty().await;
        for _ in 0..self.rng.below(30) {
            yield_now().await;
            self.w.drain();
        }
        self.w.mon.note(format!("readiness of the {} service fails: {e:?}", ["control", "publish"][which]));
        self.w.mon.c("readiness checks failed");
        self.app_conn_closed = true;
        self.app_conn_err = Some(e);
        let r = &self.app.ready[which];
        *r.fail.borrow_mut() = Some(x);
        r.wake();
        if r.asked_off.get() == n {
            // nobody asks before something arrives
            self.w.queue(0, 0, None, &[]);
            let mut r = Rng::new(self.rng.u64());
            self.w.flush(&mut r).await;
        }
        self.release();
        self.w.settle().await;
        if self.w.mon.close_tx {
            if !same_err(&self.w.mon.close_tx_err, &self.app_conn_err, self.w.mon.peer_max_frame) {
                let (a, b) = (self.w.mon.close_tx_err.clone(), self.app_conn_err.clone());
                self.v(&["E02", "S12"], "readiness-error-differs", format!("Close carries {a:?}, the readiness check failed with {b:?}"));
            }
        } else {
            self.v(&["E02"], "readiness-failure-ignored", "the readiness check of a service failed, the connection was not closed");
        }
        self.cut = true;
        self.w.cut(false);
        self.over().await;
        if let Some(Ok(())) = self.ended.with(|r| r.cloned()) {
            self.v(&["E02"], "readiness-failure-hidden", "the readiness check of a service failed, the endpoint's task ended without an error");
        }
    }

    async fn over(&mut self) {
        self.w.settle().await;
        let mut n = 0;
        while !self.ended.done() && n < 300 {
            // the transport's own shutdown may take a moment
            ntex::time::sleep(ntex::time::Millis(10)).await;
            n += 1;
        }
        self.rest().await;
        if !self.ended.done() {
            let s: Vec<String> = self.app.ready.iter().map(|r| format!("off {} asked {} running {} calls {} shutdowns {}", r.off.get(), r.asked_off.get(), r.running.get(), r.calls.get(), r.shutdowns.get())).collect();
            self.w.mon.note(s.join(" | "));
            self.v(&["S07", "E02"], "endpoint-never-ends", "the connection is over, the endpoint's task has not ended");
        } else {
            for i in 0..=usize::from(self.cfg.server) {
                let n = self.app.closed_events.get();
                if i == 0 && n != 1 && self.app.ready[0].fail.borrow().is_none() {
                    self.v(&["E01", "E02"], "closed-event", format!("the endpoint's task has ended, the control service was told Closed {n} times"));
                }
                let n = self.app.ready[i].shutdowns.get();
                if n != 1 {
                    self.v(&["E02"], "shutdown-count", format!("the endpoint's task has ended, the {} service was shut down {n} times", ["control", "publish"][i]));
                }
            }
        }
        self.late_ops().await;
    }

    /// Operations started on what is gone
    async fn late_ops(&mut self) {
        let c = self.app.conn.borrow().clone().unwrap();
        let mut late: Vec<(String, Slot<bool>)> = vec![];
        // closing comes second, it may release the others
        let mut second: Vec<(String, Box<dyn Fn() -> Slot<bool>>)> = vec![];
        late.push(("open_session".into(), Slot::run(async move { c.open_session().await.is_err() })));
        for s in &self.sess {
            let b = s.s.build_sender_link("late-s", "late");
            late.push(("attach of a sender".into(), Slot::run(async move { b.attach().await.is_err() })));
            let b = s.s.build_receiver_link("late-r", "late");
            late.push(("attach of a receiver".into(), Slot::run(async move { b.attach().await.is_err() })));
            let e = s.s.clone();
            late.push((
                "session end".into(),
                Slot::run(async move {
                    let _ = e.end().await;
                    true
                }),
            ));
        }
        for l in &self.links {
            if let Some(s) = &l.s {
                let t = s.transfer(Bytes::from_static(b"late"));
                late.push((format!("send on '{}'", l.name), Slot::run(async move { t.send().await.is_err() })));
                let s2 = s.clone();
                late.push((format!("ready on '{}'", l.name), Slot::run(async move { !s2.ready().await })));
                let cl = s.clone();
                second.push((
                    format!("close of '{}'", l.name),
                    Box::new(move || {
                        let cl = cl.clone();
                        Slot::run(async move {
                            let _ = cl.close().await;
                            true
                        })
                    }),
                ));
                let oc = s.on_close();
                late.push((
                    format!("on_close of '{}'", l.name),
                    Slot::run(async move {
                        oc.await;
                        true
                    }),
                ));
            }
            if let Some(r) = &l.r {
                let cl = r.clone();
                second.push((
                    format!("close of '{}'", l.name),
                    Box::new(move || {
                        let cl = cl.clone();
                        Slot::run(async move {
                            let _ = cl.close().await;
                            true
                        })
                    }),
                ));
                let r = r.clone();
                late.push((format!("recv on '{}'", l.name), Slot::run(async move { !matches!(r.recv().await, Some(Ok(_))) })));
            }
            for s in &l.sends {
                if let Some(d) = s.delivery.clone()
                    && !s.settled
                    && s.local_settled.is_none()
                    && d.try_borrow_mut().is_ok()
                {
                    #[allow(clippy::await_holding_refcell_ref)]
                    late.push((
                        format!("wait for op{}", s.id),
                        Slot::run(async move {
                            let d = d.borrow();
                            let _ = d.wait().await;
                            true
                        }),
                    ));
                }
            }
        }
        self.w.settle().await;
        self.judge_late(late);
        let late: Vec<_> = second.into_iter().map(|(n, f)| (n, f())).collect();
        self.w.settle().await;
        self.judge_late(late);
        if let Some(p) = report::take_panic() {
            self.v(&["*", "S10"], &format!("panic-{}", report::panic_site(&p)), format!("panic: {p}"));
        }
    }
    fn judge_late(&mut self, late: Vec<(String, Slot<bool>)>) {
        for (n, s) in late {
            self.w.mon.c("late operations judged");
            match s.take() {
                None => self.v(&["S07"], "late-operation-hangs", format!("{n}, started after the connection was gone, hangs")),
                Some(false) => self.v(&["S07"], "late-operation-succeeds", format!("{n}, started after the connection was gone, succeeded")),
                Some(true) => {}
            }
        }
    }
}

impl WLink {
    /// the delivery that breaks the endpoint's own limit has been sent far enough to break it
    fn oversize_done(&self, k: &MLink, s: Option<&MSess>) -> bool {
        if !self.size_limit_hit {
            return self.refuse.is_some() || self.fail_armed;
        }
        s.is_some_and(|s| s.rx.iter().any(|d| d.link_uid == k.uid && d.body.len() as u64 > self.own_limit))
    }
}
