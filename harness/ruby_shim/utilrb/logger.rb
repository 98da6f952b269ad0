require 'logger'
class Logger
  def self.Root(name, level)
    Module.new do
      define_method(:logger) { @logger ||= ::Logger.new(STDERR).tap { |l| l.level = level } }
      %w{debug info warn error fatal}.each { |m| define_method(m) { |*a, &b| logger.send(m, *a, &b) } }
    end
  end
end
