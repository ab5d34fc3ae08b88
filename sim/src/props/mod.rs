use crate::driver::Prop;
use rayon_core::sim;

mod apc;
mod exec;
mod p01;
mod p02;
mod p03;
mod p04;
mod p05;
mod p06;
mod p07;
mod p08;
mod p09;
mod p10;
mod p11;
mod p12;
mod p13;
mod p14;
mod p15;
mod p16;
mod p17;
mod p18;
mod subject;

pub static ALL: &[&Prop] = &[&p01::PROP, &p02::PROP, &p03::PROP, &p04::PROP, &p05::PROP, &p06::PROP, &p07::PROP, &p08::PROP, &p09::PROP, &p10::PROP, &p11::PROP, &p12::PROP, &p13::PROP, &p14::PROP, &p15::PROP, &p16::PROP, &p17::PROP, &p18::PROP];

/// Installs observers on the code's own observation points (log events and
/// metrics); each of them is a yield point of the scheduler.
pub fn install_observers() {
    struct Sub;
    impl tracing::Subscriber for Sub {
        fn enabled(&self, _: &tracing::Metadata<'_>) -> bool {
            true
        }
        fn new_span(&self, _: &tracing::span::Attributes<'_>) -> tracing::span::Id {
            tracing::span::Id::from_u64(1)
        }
        fn record(&self, _: &tracing::span::Id, _: &tracing::span::Record<'_>) {}
        fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
        fn event(&self, _: &tracing::Event<'_>) {
            sim::yield_point("log");
        }
        fn enter(&self, _: &tracing::span::Id) {}
        fn exit(&self, _: &tracing::span::Id) {}
    }
    crate::vm::adapter::air_machs();
    let _ = tracing::subscriber::set_global_default(Sub);
    struct Rec;
    impl metrics::Recorder for Rec {
        fn describe_counter(&self, _: metrics::KeyName, _: Option<metrics::Unit>, _: metrics::SharedString) {}
        fn describe_gauge(&self, _: metrics::KeyName, _: Option<metrics::Unit>, _: metrics::SharedString) {}
        fn describe_histogram(&self, _: metrics::KeyName, _: Option<metrics::Unit>, _: metrics::SharedString) {}
        fn register_counter(&self, _: &metrics::Key, _: &metrics::Metadata<'_>) -> metrics::Counter {
            sim::yield_point("metric");
            metrics::Counter::noop()
        }
        fn register_gauge(&self, _: &metrics::Key, _: &metrics::Metadata<'_>) -> metrics::Gauge {
            sim::yield_point("metric");
            metrics::Gauge::noop()
        }
        fn register_histogram(&self, _: &metrics::Key, _: &metrics::Metadata<'_>) -> metrics::Histogram {
            sim::yield_point("metric");
            metrics::Histogram::noop()
        }
    }
    let _ = metrics::set_global_recorder(Rec);
}
