//! Accounts and instructions of the warden network program as documented by its on-chain format,
//! written down independently of the program's own (de)serialization code.
use solana_program::{
    instruction::{AccountMeta, Instruction},
    pubkey::Pubkey,
};
use std::cell::RefCell;
use std::collections::HashMap;

pub const ELUSIV: &str = "HMr2Y6Gkjvy42y1iAPEbRKz5o7WEFPHBvagHQYR581UB";
pub const TOKENS: usize = 12;
pub const IDENT: usize = 8 + 256;
pub const HALF: usize = 558;
pub const MEMBERS: usize = 6;

pub fn pid() -> Pubkey {
    elusiv_warden_network::id()
}
pub fn elusiv() -> Pubkey {
    ELUSIV.parse().unwrap()
}
pub fn network_size() -> usize {
    use elusiv_warden_network::network::{ElusivBasicWardenNetwork, WardenNetwork};
    ElusivBasicWardenNetwork::SIZE.max()
}

thread_local! { static CACHE: RefCell<HashMap<(&'static str, Option<Pubkey>, Option<u32>), (Pubkey, u8)>> = RefCell::new(HashMap::new()); }

pub fn pda(seed: &'static str, key: Option<Pubkey>, offset: Option<u32>) -> (Pubkey, u8) {
    CACHE.with(|c| {
        *c.borrow_mut().entry((seed, key, offset)).or_insert_with(|| {
            let mut s: Vec<Vec<u8>> = vec![seed.as_bytes().to_vec()];
            if let Some(k) = key {
                s.push(k.to_bytes().to_vec());
            }
            if let Some(o) = offset {
                s.push(o.to_le_bytes().to_vec());
            }
            let r: Vec<&[u8]> = s.iter().map(|x| &x[..]).collect();
            Pubkey::find_program_address(&r, &pid())
        })
    })
}

pub fn is_pda(k: &Pubkey) -> bool {
    CACHE.with(|c| c.borrow().values().any(|v| v.0 == *k))
}

/// The kinds of account and their addresses
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Id {
    Wardens,
    Basic,
    Apa,
    Proposals,
    Warden(u32),
    Map(Pubkey),
    Attester(Pubkey),
    Stats(Pubkey, u16),
    ApaWarden(u32),
    Operator(Pubkey),
    Proposal(u32),
    Target(Pubkey),
}

impl Id {
    pub fn seed(&self) -> (&'static str, Option<Pubkey>, Option<u32>) {
        match *self {
            Id::Wardens => ("Wardens", None, None),
            Id::Basic => ("BasicWardenNetwork", None, None),
            Id::Apa => ("ApaWardenNetwork", None, None),
            Id::Proposals => ("ApaProposals", None, None),
            Id::Warden(i) => ("BasicWarden", None, Some(i)),
            Id::Map(k) => ("BasicWardenMap", Some(k), None),
            Id::Attester(k) => ("BasicWardenAttesterMap", Some(k), None),
            Id::Stats(k, y) => ("BasicWardenStats", Some(k), Some(y as u32)),
            Id::ApaWarden(i) => ("ApaWarden", None, Some(i)),
            Id::Operator(k) => ("WardenOperator", Some(k), None),
            Id::Proposal(i) => ("ApaProposal", None, Some(i)),
            Id::Target(k) => ("ApaTargetMap", Some(k), None),
        }
    }
    pub fn key(&self) -> Pubkey {
        let (s, k, o) = self.seed();
        pda(s, k, o).0
    }
    pub fn bump(&self) -> u8 {
        let (s, k, o) = self.seed();
        pda(s, k, o).1
    }
    pub fn kind(&self) -> &'static str {
        self.seed().0
    }
}

// ---------------------------------------------------------------- values

pub fn opt<const N: usize>(v: Option<[u8; N]>) -> Vec<u8> {
    match v {
        Some(b) => [vec![1u8], b.to_vec()].concat(),
        None => vec![0; 1 + N],
    }
}

#[derive(Clone, PartialEq, Debug)]
pub struct Tz {
    pub area: u8,
    pub len: u64,
    pub data: [u8; 14],
}
impl Tz {
    pub fn enc(&self) -> Vec<u8> {
        [vec![self.area], self.len.to_le_bytes().to_vec(), self.data.to_vec()].concat()
    }
}

#[derive(Clone, PartialEq, Debug)]
pub struct Config {
    pub ident: Vec<u8>,
    pub key: Pubkey,
    pub operator: Option<Pubkey>,
    pub addr: [u8; 4],
    pub port: u16,
    pub tls: u8,
    pub proxy: bool,
    pub jurisdiction: u16,
    pub tz: Tz,
    pub region: u8,
    pub version: [u16; 3],
    pub platform: Vec<u8>,
    pub apa: bool,
    pub attestation: bool,
    pub features: [bool; 3],
    pub tokens: [bool; TOKENS],
}

pub type Fields = Vec<(&'static str, Vec<u8>)>;

impl Config {
    pub fn fields(&self) -> Fields {
        vec![
            ("ident", self.ident.clone()),
            ("key", self.key.to_bytes().to_vec()),
            ("operator", opt(self.operator.map(|k| k.to_bytes()))),
            ("addr", self.addr.to_vec()),
            ("rpc_port", self.port.to_le_bytes().to_vec()),
            ("tls_mode", vec![self.tls]),
            ("uses_proxy", vec![self.proxy as u8]),
            ("jurisdiction", self.jurisdiction.to_le_bytes().to_vec()),
            ("timezone", self.tz.enc()),
            ("region", vec![self.region]),
            ("version", self.version.iter().flat_map(|v| v.to_le_bytes()).collect()),
            ("platform", self.platform.clone()),
            ("apa", vec![self.apa as u8]),
            ("attestation", vec![self.attestation as u8]),
            ("features", self.features.iter().map(|b| *b as u8).collect()),
            ("tokens", self.tokens.iter().map(|b| *b as u8).collect()),
        ]
    }
    pub fn enc(&self) -> Vec<u8> {
        self.fields().into_iter().flat_map(|f| f.1).collect()
    }
}

#[derive(Clone, PartialEq, Debug)]
pub struct Prop {
    pub proponent: Pubkey,
    pub role: u8,
    pub timestamp: u64,
    pub target: Pubkey,
    pub level: u8,
    pub token: Option<u16>,
    pub reason: Vec<u8>,
}
impl Prop {
    pub fn fields(&self) -> Fields {
        vec![
            ("proponent", self.proponent.to_bytes().to_vec()),
            ("role", vec![self.role]),
            ("timestamp", self.timestamp.to_le_bytes().to_vec()),
            ("target", self.target.to_bytes().to_vec()),
            ("level", vec![self.level]),
            ("token_constraint", opt(self.token.map(|t| t.to_le_bytes()))),
            ("reason", self.reason.clone()),
        ]
    }
    pub fn enc(&self) -> Vec<u8> {
        self.fields().into_iter().flat_map(|f| f.1).collect()
    }
}

// ---------------------------------------------------------------- instructions

#[derive(Clone, Debug)]
pub enum Op {
    Init,
    Register { id: u32, config: Config },
    State { id: u32, active: bool },
    Lut { id: u32 },
    Start { id: u32, quote: Vec<u8> },
    Complete { id: u32, quote: Vec<u8> },
    Confirm { id: u32, message: [u8; 32] },
    Genesis,
    Operator { ident: Vec<u8>, url: Vec<u8>, jurisdiction: Option<u16> },
    ConfirmOp { id: u32 },
    OpenStats { year: u16 },
    Track { year: u16, can_fail: bool },
    Propose { id: u32, proposal: Prop },
    AddAttester { id: u32, attester: Pubkey },
    Revoke { id: u32 },
    Attest { by: u32, id: u32, member: u32, asn: Option<u32>, tz: Tz, region: u8, proxy: bool },
    Close,
    /// an instruction of another program
    Foreign { program: Pubkey, data: Vec<u8> },
    /// arbitrary bytes sent to the program
    Raw(Vec<u8>),
}

impl Op {
    pub fn name(&self) -> &'static str {
        match self {
            Op::Init => "Init",
            Op::Register { .. } => "RegisterBasicWarden",
            Op::State { .. } => "UpdateBasicWardenState",
            Op::Lut { .. } => "UpdateBasicWardenLut",
            Op::Start { .. } => "StartApaGenesisWardenApplication",
            Op::Complete { .. } => "CompleteApaGenesisWardenApplication",
            Op::Confirm { .. } => "ConfirmApaGenesisNetwork",
            Op::Genesis => "CompleteApaGenesisNetwork",
            Op::Operator { .. } => "RegisterWardenOperator",
            Op::ConfirmOp { .. } => "ConfirmBasicWardenOperation",
            Op::OpenStats { .. } => "OpenBasicWardenStatsAccount",
            Op::Track { .. } => "TrackBasicWardenStats",
            Op::Propose { .. } => "ProposeApaProposal",
            Op::AddAttester { .. } => "AddMetadataAttester",
            Op::Revoke { .. } => "RevokeMetadataAttester",
            Op::Attest { .. } => "AttestBasicWardenMetadata",
            Op::Close => "CloseProgramAccount",
            Op::Foreign { .. } => "foreign",
            Op::Raw(_) => "raw bytes",
        }
    }

    /// The properties that speak about this instruction
    pub fn tags(&self) -> &'static [&'static str] {
        match self {
            Op::Init | Op::Close | Op::Raw(_) | Op::Foreign { .. } => &["W01", "W02", "W03", "W04", "W05"],
            Op::Register { .. } | Op::State { .. } | Op::Lut { .. } | Op::Operator { .. } | Op::ConfirmOp { .. } => &["W01"],
            Op::Start { .. } | Op::Complete { .. } | Op::Confirm { .. } | Op::Genesis => &["W03"],
            Op::OpenStats { .. } | Op::Track { .. } => &["W04"],
            Op::Propose { .. } => &["W05"],
            Op::AddAttester { .. } | Op::Revoke { .. } | Op::Attest { .. } => &["W02"],
        }
    }

    pub fn data(&self) -> Vec<u8> {
        let u = |v: u32| v.to_le_bytes().to_vec();
        let o16 = |v: Option<u16>| v.map(|v| [vec![1], v.to_le_bytes().to_vec()].concat()).unwrap_or(vec![0]);
        let o32 = |v: Option<u32>| v.map(|v| [vec![1], v.to_le_bytes().to_vec()].concat()).unwrap_or(vec![0]);
        match self {
            Op::Init => vec![0],
            Op::Register { id, config } => [vec![1], u(*id), config.enc()].concat(),
            Op::State { id, active } => [vec![2], u(*id), vec![*active as u8]].concat(),
            Op::Lut { id } => [vec![3], u(*id)].concat(),
            Op::Start { id, quote } => [vec![4], u(*id), quote.clone()].concat(),
            Op::Complete { id, quote } => [vec![5], u(*id), quote.clone()].concat(),
            Op::Confirm { id, message } => [vec![6], u(*id), message.to_vec()].concat(),
            Op::Genesis => vec![7],
            Op::Operator { ident, url, jurisdiction } => [vec![8], ident.clone(), url.clone(), o16(*jurisdiction)].concat(),
            Op::ConfirmOp { id } => [vec![9], u(*id)].concat(),
            Op::OpenStats { year } => [vec![10], year.to_le_bytes().to_vec()].concat(),
            Op::Track { year, can_fail } => [vec![11], year.to_le_bytes().to_vec(), vec![*can_fail as u8]].concat(),
            Op::Propose { id, proposal } => [vec![12], u(*id), proposal.enc()].concat(),
            Op::AddAttester { id, attester } => [vec![13], u(*id), attester.to_bytes().to_vec()].concat(),
            Op::Revoke { id } => [vec![14], u(*id)].concat(),
            Op::Attest { by, id, member, asn, tz, region, proxy } => {
                [vec![15], u(*by), u(*id), u(*member), o32(*asn), tz.enc(), vec![*region, *proxy as u8]].concat()
            }
            Op::Close => vec![16],
            Op::Foreign { data, .. } => data.clone(),
            Op::Raw(d) => d.clone(),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Call {
    pub op: Op,
    /// (key, signer, writable)
    pub accs: Vec<(Pubkey, bool, bool)>,
}

impl Call {
    pub fn ix(&self) -> Instruction {
        Instruction {
            program_id: if let Op::Foreign { program, .. } = &self.op { *program } else { pid() },
            accounts: self.accs.iter().map(|(k, s, w)| AccountMeta { pubkey: *k, is_signer: *s, is_writable: *w }).collect(),
            data: self.op.data(),
        }
    }
}
