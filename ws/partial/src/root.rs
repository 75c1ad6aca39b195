// Included at the crate root of each binary: the modules of /repo/src that compile without askar-crypto.
#[path = "/repo/src/algorithms.rs"]
pub mod algorithms;
#[path = "/repo/src/did/mod.rs"]
pub mod did;
#[path = "/repo/src/error.rs"]
pub mod error;
#[path = "/repo/src/secrets/mod.rs"]
pub mod secrets;

mod jwe {
    #[path = "/repo/src/jwe/envelope.rs"]
    pub(crate) mod envelope;
    #[path = "/repo/src/jwe/parse.rs"]
    mod parse;

    pub(crate) use envelope::{Algorithm, EncAlgorithm};
    pub(crate) use parse::{parse, ParsedJWE};
}

mod message {
    #[path = "/repo/src/message/attachment.rs"]
    mod attachment;
    #[path = "/repo/src/message/message.rs"]
    mod message;

    pub use attachment::{
        Attachment, AttachmentBuilder, AttachmentData, Base64AttachmentData, JsonAttachmentData,
        LinksAttachmentData,
    };
    pub use message::{Message, MessageBuilder};
}

pub mod protocols {
    pub mod routing {
        #[path = "/repo/src/protocols/routing/forward.rs"]
        mod forward;

        pub use self::forward::ParsedForward;
    }
}

mod utils {
    #[path = "/repo/src/utils/serde.rs"]
    pub(crate) mod serde;
}

pub use message::{
    Attachment, AttachmentBuilder, AttachmentData, Base64AttachmentData, JsonAttachmentData,
    LinksAttachmentData, Message, MessageBuilder,
};

/// How the checks name the library.
mod dc {
    pub(crate) use crate::{algorithms, did, error, protocols, secrets};
    pub(crate) use crate::{
        Attachment, AttachmentBuilder, AttachmentData, Base64AttachmentData, JsonAttachmentData,
        LinksAttachmentData, Message, MessageBuilder,
    };
}
