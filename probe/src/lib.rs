//! Compiles only if everything a reader holds may be sent to and shared with other threads.
use nt_hive::*;

fn shareable<T: Send + Sync>() {}

pub fn probe() {
    type B = &'static [u8];
    shareable::<Hive<B>>();
    shareable::<KeyNode<'static, B>>();
    shareable::<KeyValue<'static, B>>();
    shareable::<KeyValues<'static, B>>();
    shareable::<SubKeyNodes<'static, B>>();
    shareable::<LeafKeyNodes<'static, B>>();
    shareable::<IndexRootKeyNodes<'static, B>>();
    shareable::<BigDataSlices<'static, B>>();
    shareable::<KeyValueData<'static, B>>();
    shareable::<RegMultiSZStrings<'static, B>>();
    shareable::<NtHiveNameString<'static>>();
    shareable::<NtHiveError>();
    shareable::<Hive<&'static mut [u8]>>();
}
