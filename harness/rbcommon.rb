# Shared by the drivers of the Ruby bindings: reads one JSON operation per line,
# writes the operation, its outcome and the projected state as one JSON line.
require 'json'
require 'typelib'
Typelib.logger.level = Logger::FATAL if Typelib.respond_to?(:logger)

class NoRef < StandardError; end
class DriverError < StandardError; end
$VERBOSE = nil

# How Ruby sees a failure: the class that is documented, whatever the message
RES = [[NoRef, 'NoRef'], [Typelib::NotFound, 'NotFound'], [Typelib::UnknownConversionRequested, 'UnknownConversion'],
       [FloatDomainError, 'RangeError'], [RangeError, 'RangeError'], [IndexError, 'IndexError'], [TypeError, 'TypeError'],
       [ArgumentError, 'ArgumentError'], [NoMethodError, 'NoMethod'], [RuntimeError, 'RuntimeError'], [NotImplementedError, 'NotImplemented']]
def resname(e)
    RES.each { |k, n| return n if e.kind_of?(k) }
    e.class.name
end

def run_driver(ops, trace)
    out = File.open(trace, 'w')
    File.foreach(ops) do |line|
        next if line.strip.empty?
        File.write(trace + '.cur', line)
        c = JSON.parse(line)
        ev = yield(c)
        # "op" and "res" come first
        ev = { 'op' => c['op'] }.merge(c).merge(ev)
        out.puts(JSON.generate(ev))
        out.flush
    end
    out.close
end
