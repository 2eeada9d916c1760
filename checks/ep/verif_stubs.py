"""Components that C29 offers through the entry points of a distribution of its own."""
from opentelemetry.sdk._logs.export import LogExporter, LogExportResult
from opentelemetry.sdk.metrics.export import MetricExporter, MetricExportResult, MetricReader
from opentelemetry.sdk.trace.export import SpanExporter, SpanExportResult
from opentelemetry.sdk.trace.id_generator import IdGenerator
from opentelemetry.sdk.trace.sampling import Decision, Sampler, SamplingResult

WORLD = [None]      # the run in progress: .made(name, obj), .export(obj, data, timeout)


def span(n):
    class X(SpanExporter):
        name = n

        def __init__(self):
            WORLD[0].made(self)

        def export(self, spans):
            return SpanExportResult.SUCCESS if WORLD[0].export(self, list(spans), None) else SpanExportResult.FAILURE

        def shutdown(self):
            WORLD[0].closed(self)
    return X


def log(n):
    class X(LogExporter):
        name = n

        def __init__(self):
            WORLD[0].made(self)

        def export(self, batch):
            return LogExportResult.SUCCESS if WORLD[0].export(self, list(batch), None) else LogExportResult.FAILURE

        def shutdown(self):
            WORLD[0].closed(self)
    return X


def metric(n):
    class X(MetricExporter):
        name = n

        def __init__(self):
            super().__init__()
            WORLD[0].made(self)

        def export(self, metrics_data, timeout_millis=10_000, **kwargs):
            return MetricExportResult.SUCCESS if WORLD[0].export(self, metrics_data, timeout_millis) else MetricExportResult.FAILURE

        def force_flush(self, timeout_millis=10_000):
            return True

        def shutdown(self, timeout_millis=30_000, **kwargs):
            WORLD[0].closed(self)
    return X


class mrd(MetricReader):
    name = "mrd"

    def __init__(self):
        super().__init__()
        WORLD[0].made(self)

    def _receive_metrics(self, metrics_data, timeout_millis=10_000, **kwargs):
        WORLD[0].export(self, metrics_data, None)

    def shutdown(self, timeout_millis=30_000, **kwargs):
        WORLD[0].closed(self)


sx0, sx1, sgrpc, shttp = span("sx0"), span("sx1"), span("otlp_proto_grpc"), span("otlp_proto_http")
lx0, lx1, lgrpc, lhttp = log("lx0"), log("lx1"), log("otlp_proto_grpc"), log("otlp_proto_http")
mx0, mx1, mgrpc, mhttp = metric("mx0"), metric("mx1"), metric("otlp_proto_grpc"), metric("otlp_proto_http")


class by_name(Sampler):
    """Samples the spans that have the argument in their name."""

    def __init__(self, arg):
        self.arg = arg

    def should_sample(self, parent_context, trace_id, name, kind=None, attributes=None, links=None, trace_state=None):
        return SamplingResult(Decision.RECORD_AND_SAMPLE if self.arg is not None and self.arg in name else Decision.DROP)

    def get_description(self):
        return "by name"


def no_sampler(arg):
    return "not a sampler"


def raises(arg):
    raise WORLD[0].boom("sampler")


class SeqIds(IdGenerator):
    def __init__(self):
        self.ids = []

    def generate_span_id(self):
        return WORLD[0].new_id()

    def generate_trace_id(self):
        return WORLD[0].new_id() << 64 | 7
